// The real program (gui/main.cpp) with a script that takes over once it runs its event loop.
//
//   gui_driver session SCRIPT [program arguments]
#include <QApplication>
#include <QTimer>

#include "gui_harness.h"

#define main scram_gui_main
#include "main.cpp"
#undef main

namespace gh {

void session(const char* script);

namespace {
const char* g_script = nullptr;
void takeOver() {
  if (!g_script) return;
  QTimer::singleShot(0, qApp, [] { session(g_script); });
}
}  // namespace
Q_COREAPP_STARTUP_FUNCTION(takeOver)

int program(int argc, char** argv) {
  g_script = argv[2];
  std::vector<char*> args{argv[0]};
  for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
  args.push_back(nullptr);
  return scram_gui_main(static_cast<int>(args.size()) - 1, args.data());
}

}  // namespace gh
