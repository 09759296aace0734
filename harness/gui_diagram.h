// Fault tree diagrams against the specification's state of the document.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "gui_harness.h"
#include "model.h"

namespace gh {

struct DiagramNode {
  char kind = 'B';  // B basic, U undeveloped, H house, G gate
  std::string name, label;
  int conn = 0, min = 0;
  std::vector<int> args;
  const void* proxy = nullptr;
};

class Diagrams {
 public:
  Diagrams(scram::gui::model::Model* model, Rng* rng);
  ~Diagrams();
  void open(const std::map<int, DiagramNode>& st);
  void close();
  void check(const std::map<int, DiagramNode>& st, const std::string& where);
  void fiddle(const std::map<int, DiagramNode>& st, const std::string& where);
  struct Tab;

 private:
  scram::gui::model::Model* model;
  Rng* rng;
  std::vector<std::unique_ptr<Tab>> tabs;
};

}  // namespace gh
