// Entry of the GUI driver: gui_driver validate|history|tables|diagrams|results|window|session ...
#include <QApplication>
#include <QComboBox>
#include <QFile>
#include <QLineEdit>
#include <QSettings>
#include <QStandardPaths>
#include <QStyleFactory>

#include <fstream>
#include <iostream>

#include "gui_harness.h"
#include "validator.h"

namespace gh {

// Every line of the file: which<TAB>utf16 code units in hex. Prints the state and the fixed-up text
// of the validator, and what a line edit with that validator takes when the text is typed into it.
int validate(int argc, char** argv) {
  std::ifstream in(argv[2]);
  std::string line;
  using scram::gui::Validator;
  const std::map<std::string, const QValidator*> which{{"name", Validator::name()},
                                                       {"percent", Validator::percent()},
                                                       {"probability", Validator::probability()},
                                                       {"nonNegative", Validator::nonNegative()}};
  while (std::getline(in, line)) {
    auto tab = line.find('\t');
    const QValidator* v = which.at(line.substr(0, tab));
    if (v != which.at(line.substr(0, tab))) fail("validator-identity", line);
    QString text;
    std::istringstream hex(line.substr(tab + 1));
    unsigned u;
    while (hex >> std::hex >> u) text.append(QChar(static_cast<ushort>(u)));
    int pos = text.size();
    QString copy = text;
    auto state = v->validate(copy, pos);
    QLineEdit edit;
    edit.setValidator(v);
    edit.setText(text);
    bool acc = edit.hasAcceptableInput();
    bool ok = false;
    double d = edit.text().toDouble(&ok);
    QLineEdit typed;
    typed.setValidator(v);
    typed.insert(text);
    std::printf("R %d %d %d %d %.17g %d %d\n", static_cast<int>(state), copy == text, acc, ok, d, typed.text() == text, typed.hasAcceptableInput());
  }
  std::fflush(stdout);
  return 0;
}

}  // namespace gh

int main(int argc, char** argv) {
  if (argc < 2) return 2;
  if (argc > 2 && argv[1] == std::string("session")) {
    QApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
    int rc = gh::program(argc, argv);
    gh::flushCounters();
    std::printf("DONE %d\n", rc);
    std::fflush(stdout);
    std::_Exit(rc);
  }
  QCoreApplication::setOrganizationName("scramverif");
  QCoreApplication::setApplicationName("scramverif");
  QSettings::setDefaultFormat(QSettings::IniFormat);
  if (const char* dir = std::getenv("GUI_SETTINGS"))
    QSettings::setPath(QSettings::IniFormat, QSettings::UserScope, dir), QSettings::setPath(QSettings::NativeFormat, QSettings::UserScope, dir);
  QApplication app(argc, argv);
  std::string mode = argv[1];
  int rc = 2;
  if (mode == "validate") rc = gh::validate(argc, argv);
  if (mode == "history" || mode == "tables" || mode == "diagrams") rc = gh::history(argc, argv);
  if (mode == "results") rc = gh::results(argc, argv);
  if (mode == "window") rc = gh::window(argc, argv);
  gh::flushCounters();
  std::printf("DONE %d\n", rc);
  std::fflush(stdout);
  std::_Exit(rc);
}
