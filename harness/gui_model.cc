// Random walks over the GUI's editing commands, against an independent model of the documents.
//
//   gui_driver history MODEL.xml SEED STEPS   - documents, proxies and change notifications
//   gui_driver tables  MODEL.xml SEED STEPS   - the same walk with the table and tree models attached
//   gui_driver diagrams MODEL.xml SEED STEPS  - the same walk with fault tree diagrams open
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <set>

#include <QAbstractItemModelTester>
#include <QApplication>
#include <QHeaderView>
#include <QPersistentModelIndex>
#include <QTableView>
#include <QTreeView>
#include <QUndoStack>

#include "src/env.h"
#include "src/expression/constant.h"
#include "src/expression/exponential.h"
#include "src/ext/variant.h"
#include "src/initializer.h"
#include "src/xml.h"

#include "elementcontainermodel.h"
#include "gui_diagram.h"
#include "gui_harness.h"
#include "model.h"
#include "modeltree.h"

using namespace scram;
namespace gm = scram::gui::model;

namespace {
using gh::cat;
using gh::fail;

struct EvS {  // one event of the specification
  char kind = 'B';
  std::string name, label;
  std::vector<std::array<std::string, 3>> attrs;
  mef::Expression* expr = nullptr;
  bool state = false;
  int conn = 0;
  int min = 0;
  std::vector<std::pair<bool, int>> args;
  int ft = -1;
  const void* mef = nullptr;    // identity of the core element
  const void* proxy = nullptr;  // identity of the proxy
};
struct FtS {
  std::string name, label;
  const void* mef = nullptr;
};
struct State {
  std::map<int, EvS> ev;
  std::map<int, FtS> ft;
  std::string name;
};

const char* kConn[] = {"and", "or", "atleast", "xor", "not", "nand", "nor", "null"};

std::string flavorOf(const EvS& e) {
  for (auto& a : e.attrs)
    if (a[0] == "flavor" && a[1] == "undeveloped") return "Undeveloped";
  return "Basic";
}
std::string typeOf(const EvS& e) {
  if (e.conn == mef::kAtleast) return "at-least " + std::to_string(e.min);
  return kConn[e.conn];
}
std::string attrsOf(std::vector<std::array<std::string, 3>> a) {
  std::sort(a.begin(), a.end());
  std::string r;
  for (auto& x : a) r += x[0] + "=" + x[1] + ":" + x[2] + ";";
  return r;
}
template <class T>
std::string coreAttrs(const T& e) {
  std::vector<std::array<std::string, 3>> a;
  for (const mef::Attribute& x : e.attributes()) a.push_back({x.name(), x.value(), x.type()});
  return attrsOf(a);
}

std::vector<std::string> render(const State& st) {
  std::vector<std::string> r;
  for (auto& [id, e] : st.ev) {
    std::string l = cat("event ", e.kind, " ", e.name, " label=", e.label, " attrs=", attrsOf(e.attrs), " @", e.mef, " ");
    if (e.kind == 'B') {
      l += cat("expr=", e.expr);
      if (e.expr) l += cat(" p=", e.expr->value());
    }
    if (e.kind == 'H') l += cat("state=", e.state);
    if (e.kind == 'G') {
      l += cat(kConn[e.conn], " ", e.min);
      for (auto& [c, a] : e.args) {
        const EvS& x = st.ev.at(a);
        l += cat(" ", c ? "!" : "", x.kind, ":", x.name, "@", x.mef);
      }
    }
    r.push_back(l);
  }
  for (auto& [id, f] : st.ft) {
    std::vector<std::string> g;
    for (auto& [k, e] : st.ev)
      if (e.kind == 'G' && e.ft == id) g.push_back(cat(e.name, "@", e.mef));
    std::sort(g.begin(), g.end());
    std::string l = cat("tree ", f.name, " label=", f.label, " @", f.mef, ":");
    for (auto& x : g) l += " " + x;
    r.push_back(l);
  }
  r.push_back("model " + st.name);
  std::sort(r.begin(), r.end());
  return r;
}

std::vector<std::string> renderCore(mef::Model& m) {
  std::vector<std::string> r;
  std::set<const void*> known;
  for (mef::Gate& g : m.table<mef::Gate>()) known.insert(static_cast<mef::Event*>(&g));
  for (mef::BasicEvent& g : m.table<mef::BasicEvent>()) known.insert(static_cast<mef::Event*>(&g));
  for (mef::HouseEvent& g : m.table<mef::HouseEvent>()) known.insert(static_cast<mef::Event*>(&g));
  auto head = [](char k, const auto& e) {
    if (e.id() != e.name()) fail("core-id", e.name() + " has id " + e.id());
    return cat("event ", k, " ", e.name(), " label=", e.label(), " attrs=", coreAttrs(e), " @", static_cast<const void*>(static_cast<const mef::Event*>(&e)), " ");
  };
  for (mef::BasicEvent& e : m.table<mef::BasicEvent>()) {
    mef::Expression* x = e.HasExpression() ? &e.expression() : nullptr;
    r.push_back(head('B', e) + cat("expr=", x) + (x ? cat(" p=", e.p()) : std::string()));
  }
  for (mef::HouseEvent& e : m.table<mef::HouseEvent>()) r.push_back(head('H', e) + cat("state=", e.state()));
  for (mef::Gate& e : m.table<mef::Gate>()) {
    const mef::Formula& f = e.formula();
    std::string l = head('G', e) + cat(kConn[f.connective()], " ", f.min_number().value_or(0));
    for (const mef::Formula::Arg& a : f.args()) {
      const mef::Event* x = ext::as<const mef::Event*>(a.event);
      if (!known.count(x)) fail("argument-not-in-model", cat("gate ", e.name(), " has an argument that is in no table of the model"));
      char k = std::holds_alternative<mef::Gate*>(a.event) ? 'G' : std::holds_alternative<mef::BasicEvent*>(a.event) ? 'B' : 'H';
      l += cat(" ", a.complement ? "!" : "", k, ":", x->name(), "@", static_cast<const void*>(x));
    }
    r.push_back(l);
  }
  for (mef::FaultTree& t : m.table<mef::FaultTree>()) {
    std::vector<std::string> g;
    for (const mef::Gate& e : t.gates()) {
      g.push_back(cat(e.name(), "@", static_cast<const void*>(static_cast<const mef::Event*>(&e))));
      if (!t.gates().count(e.name())) fail("tree-lookup", cat(t.name(), " has gate ", e.name(), " but does not find it by name"));
      if (!known.count(static_cast<const mef::Event*>(&e))) fail("tree-gate-not-in-model", cat(t.name(), " ", e.name()));
    }
    std::sort(g.begin(), g.end());
    std::string l = cat("tree ", t.name(), " label=", t.label(), " @", static_cast<const void*>(&t), ":");
    for (auto& x : g) l += " " + x;
    r.push_back(l);
  }
  r.push_back("model " + m.GetOptionalName());
  std::sort(r.begin(), r.end());
  return r;
}

void compare(const std::string& key, const std::vector<std::string>& want, const std::vector<std::string>& got, const std::string& where) {
  if (want == got) return;
  std::vector<std::string> a, b;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
  std::string m = where + ": ";
  for (auto& x : a) { m += " expected [" + x + "]"; break; }
  for (auto& x : b) { m += " found [" + x + "]"; break; }
  fail(key, m);
}

// The picture of the document a client has that only listens to the notifications.
struct Mirror : QObject {
  struct Item {
    char kind;
    std::string id, label;
    int flavor = 0;
    const void* expr = nullptr;
    bool state = false;
    std::string formula;
  };
  std::map<const void*, Item> items;
  std::set<const void*> trees;
  std::string name;
  std::map<std::string, int> seen;  // "<signal> <proxy>" -> count since the last reset
  gm::Model* model;

  static std::string formula(const gm::Gate* g) {
    std::string l = cat(gh::s(g->type<QString>()), " ", g->minNumber().value_or(0), " ", g->numArgs());
    for (auto& a : g->args()) l += cat(" ", a.complement, static_cast<const void*>(ext::as<const mef::Event*>(a.event)));
    return l;
  }
  void note(const char* sig, const void* who) {
    ++seen[cat(sig, " ", who)];
    gh::count("notifications");
  }
  Item& at(const void* p, const char* sig) {
    auto it = items.find(p);
    if (it == items.end()) fail("signal-from-unknown", cat(sig, " from an element that was not announced"));
    return it->second;
  }
  template <class T>
  void base(T* e, char kind) {
    if (items.count(e)) fail("added-twice", cat("added() for an element already announced: ", gh::s(e->id())));
    Item it;
    it.kind = kind;
    it.id = gh::s(e->id());
    it.label = gh::s(e->label());
    items[e] = it;
    connect(e, &gm::Element::labelChanged, this, [this, e](const QString& l) { note("label", e); at(e, "label").label = gh::s(l); });
    connect(e, &gm::Element::idChanged, this, [this, e](const QString& l) { note("id", e); at(e, "id").id = gh::s(l); });
  }
  void add(gm::BasicEvent* e) {
    base(e, 'B');
    items[e].flavor = e->flavor();
    items[e].expr = e->expression();
    connect(e, &gm::BasicEvent::flavorChanged, this, [this, e](gm::BasicEvent::Flavor f) { note("flavor", e); at(e, "flavor").flavor = f; });
    connect(e, &gm::BasicEvent::expressionChanged, this, [this, e](mef::Expression* x) { note("expression", e); at(e, "expression").expr = x; });
  }
  void add(gm::HouseEvent* e) {
    base(e, 'H');
    items[e].state = e->state();
    connect(e, &gm::HouseEvent::stateChanged, this, [this, e](bool v) { note("state", e); at(e, "state").state = v; });
  }
  void add(gm::Gate* e) {
    base(e, 'G');
    items[e].formula = formula(e);
    connect(e, &gm::Gate::formulaChanged, this, [this, e] { note("formula", e); at(e, "formula").formula = formula(e); });
  }
  template <class T>
  void gone(T* e) {
    if (!items.count(e)) fail("removed-unknown", "removed() for an element that was not announced");
    items.erase(e);
    QObject::disconnect(e, nullptr, this, nullptr);
  }
  template <class T>
  void watch() {
    connect(model, qOverload<T*>(&gm::Model::added), this, [this](T* e) { note("added", e); add(e); });
    connect(model, qOverload<T*>(&gm::Model::removed), this, [this](T* e) { note("removed", e); gone(e); });
  }
  explicit Mirror(gm::Model* m, const std::string& n) : name(n), model(m) {
    for (auto& e : m->basicEvents()) add(e.get());
    for (auto& e : m->houseEvents()) add(e.get());
    for (auto& e : m->gates()) add(e.get());
    for (mef::FaultTree& t : m->faultTrees()) trees.insert(&t);
    watch<gm::BasicEvent>();
    watch<gm::HouseEvent>();
    watch<gm::Gate>();
    connect(m, qOverload<mef::FaultTree*>(&gm::Model::added), this, [this](mef::FaultTree* t) {
      note("tree+", t);
      if (!trees.insert(t).second) fail("tree-added-twice", t->name());
    });
    connect(m, qOverload<mef::FaultTree*>(&gm::Model::removed), this, [this](mef::FaultTree* t) {
      note("tree-", t);
      if (!trees.erase(t)) fail("tree-removed-unknown", t->name());
    });
    connect(m, &gm::Model::modelNameChanged, this, [this, m](QString n) { note("name", m); name = gh::s(n); });
  }
};

// What a view of a table shows that only listens to the item-model notifications.
struct TableMirror : QObject {
  QAbstractItemModel* m;
  std::string what;
  std::vector<std::vector<QVariant>> rows;
  std::vector<std::vector<QVariant>> kids;  // the arguments shown below each row
  long events = 0;
  std::vector<QVariant> readKids(int r) {
    std::vector<QVariant> v;
    QModelIndex x = m->index(r, 0);
    for (int c = 0; c < m->rowCount(x); ++c) v.push_back(m->index(c, 0, x).data());
    return v;
  }
  std::vector<std::vector<QVariant>> readAllKids() {
    std::vector<std::vector<QVariant>> v;
    for (int r = 0; r < m->rowCount(); ++r) v.push_back(readKids(r));
    return v;
  }
  std::vector<QVariant> readRow(int r) {
    std::vector<QVariant> v;
    for (int c = 0; c < m->columnCount(); ++c) v.push_back(m->index(r, c).data());
    return v;
  }
  std::vector<std::vector<QVariant>> readAll() {
    std::vector<std::vector<QVariant>> v;
    for (int r = 0; r < m->rowCount(); ++r) v.push_back(readRow(r));
    return v;
  }
  TableMirror(QAbstractItemModel* model, std::string w) : m(model), what(std::move(w)) {
    rows = readAll();
    kids = readAllKids();
    connect(m, &QAbstractItemModel::rowsInserted, this, [this](const QModelIndex& p, int a, int b) {
      if (p.isValid()) return;
      ++events;
      if (a > static_cast<int>(rows.size())) fail("insert-out-of-range", what);
      for (int r = a; r <= b; ++r) rows.insert(rows.begin() + r, readRow(r)), kids.insert(kids.begin() + r, readKids(r));
    });
    connect(m, &QAbstractItemModel::rowsRemoved, this, [this](const QModelIndex& p, int a, int b) {
      if (p.isValid()) return;
      ++events;
      if (b >= static_cast<int>(rows.size())) fail("remove-out-of-range", what);
      rows.erase(rows.begin() + a, rows.begin() + b + 1);
      kids.erase(kids.begin() + a, kids.begin() + b + 1);
    });
    connect(m, &QAbstractItemModel::dataChanged, this, [this](const QModelIndex& tl, const QModelIndex& br) {
      if (tl.parent().isValid()) {
        auto& k = kids.at(tl.parent().row());
        if (tl.row() < 0 || br.row() >= static_cast<int>(k.size()) || tl.column() != 0 || br.column() != 0) fail("child-datachanged-out-of-range", what);
        for (int r = tl.row(); r <= br.row(); ++r) k[r] = m->index(r, 0, tl.parent()).data();
        return;
      }
      ++events;
      if (tl.row() < 0 || br.row() >= static_cast<int>(rows.size()) || tl.column() < 0 || br.column() >= m->columnCount() || br.row() < tl.row() || br.column() < tl.column())
        fail("datachanged-out-of-range", cat(what, " rows ", tl.row(), "-", br.row(), " columns ", tl.column(), "-", br.column(), " of ", rows.size(), "x", m->columnCount()));
      for (int r = tl.row(); r <= br.row(); ++r)
        for (int c = tl.column(); c <= br.column(); ++c) rows[r][c] = m->index(r, c).data();
    });
    auto all = [this] { ++events; rows = readAll(); kids = readAllKids(); };
    connect(m, &QAbstractItemModel::modelReset, this, all);
    connect(m, &QAbstractItemModel::layoutChanged, this, all);
    connect(m, &QAbstractItemModel::rowsMoved, this, all);
  }
  static std::string str(const QVariant& v) { return v.isValid() ? gh::s(v.toString()) : std::string("-"); }
  static std::string str(const std::vector<QVariant>& v) {
    std::string r;
    for (auto& x : v) r += str(x) + ",";
    return r;
  }
  void check(const std::string& where) {
    auto now = readAll();
    if (now.size() != rows.size()) fail("rows-not-announced:" + what, cat(where, ": ", rows.size(), " rows announced, ", now.size(), " present"));
    for (std::size_t i = 0; i < now.size(); ++i)
      if (now[i] != rows[i]) fail("cells-not-announced:" + what, cat(where, ": row ", i, " shows ", str(rows[i]), " but holds ", str(now[i])));
    auto k = readAllKids();
    for (std::size_t i = 0; i < k.size(); ++i)
      if (k[i] != kids.at(i)) fail("children-not-announced:" + what, cat(where, ": row ", i, " (", str(now[i]), ") shows ", str(kids[i]), " but holds ", str(k[i])));
  }
};

struct Walk {
  gh::Rng rng;
  bool tables;
  std::unique_ptr<mef::Model> core;
  std::unique_ptr<gm::Model> gui;
  QUndoStack stack;
  std::unique_ptr<Mirror> mirror;
  std::vector<State> hist;
  int idx = 0;
  int nextId = 0, nextName = 0;
  int limit = 0;
  std::set<std::string> names;
  std::string where;
  // tables mode
  std::unique_ptr<gm::BasicEventContainerModel> bt;
  std::unique_ptr<gm::HouseEventContainerModel> ht;
  std::unique_ptr<gm::GateContainerModel> gt;
  std::unique_ptr<gui::ModelTree> tree;
  std::vector<std::unique_ptr<QSortFilterProxyModel>> proxies;
  std::vector<std::unique_ptr<TableMirror>> mirrors, pmirrors;
  std::vector<std::unique_ptr<QAbstractItemView>> views;
  std::vector<std::unique_ptr<QAbstractItemModelTester>> testers;
  std::vector<QPersistentModelIndex> persistent;
  std::vector<std::string> treeTop, treeKids;

  Walk(const std::string& path, unsigned long seed, bool t) : rng(seed), tables(t) {
    static xml::Validator validator(env::install_dir() + "/share/scram/gui.rng");
    core = mef::Initializer({path}, core::Settings(), false, &validator).model();
    gui = std::make_unique<gm::Model>(core.get());
    hist.push_back(initial());
    mirror = std::make_unique<Mirror>(gui.get(), cur().name);
    if (rng.chance(0.3)) stack.setUndoLimit(limit = rng.range(1, 12));
    if (tables) attach();
  }
  ~Walk() {
    views.clear();
    pmirrors.clear();
    mirrors.clear();
    proxies.clear();
    testers.clear();
    tree.reset();
    mirror.reset();
    stack.clear();
    bt.reset();
    ht.reset();
    gt.reset();
    gui.reset();
    core.reset();
  }
  State& cur() { return hist[idx]; }

  State initial() {
    State st;
    st.name = core->GetOptionalName();
    std::map<const void*, int> ids;
    auto base = [&](auto& e, char k) {
      EvS x;
      x.kind = k;
      x.name = e.name();
      x.label = e.label();
      for (const mef::Attribute& a : e.attributes()) x.attrs.push_back({a.name(), a.value(), a.type()});
      x.mef = static_cast<const mef::Event*>(&e);
      names.insert(x.name);
      ids[x.mef] = nextId;
      return x;
    };
    for (mef::BasicEvent& e : core->table<mef::BasicEvent>()) {
      EvS x = base(e, 'B');
      x.expr = e.HasExpression() ? &e.expression() : nullptr;
      x.proxy = gui->table<gm::BasicEvent>().find(&e)->get();
      st.ev[nextId++] = x;
    }
    for (mef::HouseEvent& e : core->table<mef::HouseEvent>()) {
      EvS x = base(e, 'H');
      x.state = e.state();
      x.proxy = gui->table<gm::HouseEvent>().find(&e)->get();
      st.ev[nextId++] = x;
    }
    for (mef::Gate& e : core->table<mef::Gate>()) {
      EvS x = base(e, 'G');
      x.proxy = gui->table<gm::Gate>().find(&e)->get();
      st.ev[nextId++] = x;
    }
    for (mef::Gate& e : core->table<mef::Gate>()) {
      EvS& x = st.ev[ids.at(static_cast<mef::Event*>(&e))];
      x.conn = e.formula().connective();
      x.min = e.formula().min_number().value_or(0);
      for (auto& a : e.formula().args()) x.args.push_back({a.complement, ids.at(ext::as<const mef::Event*>(a.event))});
    }
    for (mef::FaultTree& t : core->table<mef::FaultTree>()) {
      FtS f;
      f.name = t.name();
      f.label = t.label();
      f.mef = &t;
      for (const mef::Gate& g : t.gates()) st.ev[ids.at(static_cast<const mef::Event*>(&g))].ft = nextId;
      st.ft[nextId++] = f;
    }
    return st;
  }

  // ---- spec helpers
  std::vector<int> all(const std::string& kinds = "BHG") {
    std::vector<int> r;
    for (auto& [k, e] : cur().ev)
      if (kinds.find(e.kind) != std::string::npos) r.push_back(k);
    return r;
  }
  std::set<int> reachers(int target) {  // the target and every event that has it below
    std::set<int> r{target};
    for (bool more = true; more;) {
      more = false;
      for (auto& [k, e] : cur().ev)
        if (!r.count(k))
          for (auto& a : e.args)
            if (r.count(a.second)) {
              r.insert(k);
              more = true;
              break;
            }
    }
    return r;
  }
  bool hasParents(int id) {
    for (auto& [k, e] : cur().ev)
      for (auto& a : e.args)
        if (a.second == id) return true;
    return false;
  }
  std::string freshName() {
    static const std::vector<std::string> base{"n", "pump", "Valve-", "x_", "\xC3\xA9v", "\xD0\xB8", "G", "ev"};
    for (;;) {
      std::string n = rng.pick(base) + std::to_string(nextName++ % 37);
      bool used = false;
      for (auto& [k, e] : cur().ev) used |= e.name == n;
      for (auto& [k, f] : cur().ft) used |= f.name == n;
      if (!used) {
        names.insert(n);
        return n;
      }
      if (nextName > 100000) fail("harness", "no fresh name");
    }
  }
  std::string label() {
    static const std::vector<std::string> l{"", "a label", "with  two spaces", "\xC3\xA9\xC3\xA0 \xE2\x88\xA7", "<&>\"'", "x", "%1 %2"};
    return rng.chance(0.3) ? "label " + std::to_string(rng.below(1000)) : rng.pick(l);
  }
  mef::Expression* newExpression() {
    auto c = std::make_unique<mef::ConstantExpression>(rng.chance(0.2) ? rng.below(2) : rng.unit());
    mef::Expression* r = c.get();
    core->Add(std::move(c));
    if (rng.chance(0.3)) {
      auto e = std::make_unique<mef::Exponential>(r, &core->mission_time());
      r = e.get();
      core->Add(std::move(e));
    }
    return r;
  }
  // A formula for the gate with the given spec id (-1: a new gate).
  std::optional<EvS> newFormula(int self) {
    std::set<int> no;
    if (self >= 0) no = reachers(self);
    std::vector<int> can;
    for (int k : all())
      if (!no.count(k)) can.push_back(k);
    std::shuffle(can.begin(), can.end(), rng.g);
    if (can.empty()) return {};
    EvS e;
    std::vector<int> conns{mef::kNot, mef::kNull};
    if (can.size() >= 2) conns = {mef::kNot, mef::kNull, mef::kAnd, mef::kOr, mef::kNand, mef::kNor, mef::kXor, mef::kAnd, mef::kOr};
    if (can.size() >= 3) conns.insert(conns.end(), {mef::kAtleast, mef::kAtleast});
    e.conn = rng.pick(conns);
    int n = 1;
    if (e.conn == mef::kXor) n = 2;
    else if (e.conn == mef::kAtleast) n = rng.range(3, std::min<int>(6, can.size()));
    else if (e.conn != mef::kNot && e.conn != mef::kNull) n = rng.range(2, std::min<int>(5, can.size()));
    if (e.conn == mef::kAtleast) e.min = rng.range(2, n - 1);
    for (int i = 0; i < n; ++i) e.args.push_back({false, can[i]});
    return e;
  }
  mef::Formula::ArgEvent coreEvent(int id) { return core->GetEvent(cur().ev.at(id).name); }
  std::unique_ptr<mef::Formula> build(const EvS& e) {
    mef::Formula::ArgSet a;
    for (auto& x : e.args) a.Add(coreEvent(x.second), x.first);
    std::optional<int> m;
    if (e.conn == mef::kAtleast) m = e.min;
    return std::make_unique<mef::Formula>(static_cast<mef::Connective>(e.conn), std::move(a), m);
  }
  template <class T>
  T* proxy(int id) {
    const EvS& e = cur().ev.at(id);
    for (auto& p : gui->table<T>())
      if (gh::s(p->id()) == e.name) return p.get();
    fail("proxy-missing", cat("no proxy named ", e.name));
  }
  gm::Element* anyProxy(int id) {
    char k = cur().ev.at(id).kind;
    if (k == 'B') return proxy<gm::BasicEvent>(id);
    if (k == 'H') return proxy<gm::HouseEvent>(id);
    return proxy<gm::Gate>(id);
  }
  mef::FaultTree* coreTree(int id) {
    if (id < 0) return nullptr;
    return &*core->table<mef::FaultTree>().find(cur().ft.at(id).name);
  }
  int pickTree() {
    std::vector<int> t;
    for (auto& [k, f] : cur().ft) t.push_back(k);
    return t.empty() ? -1 : rng.pick(t);
  }

  // ---- the step machinery
  bool inMacro = false;
  State macroState;
  void commit(QUndoCommand* cmd, State next) {
    stack.push(cmd);
    if (inMacro) {
      hist[idx] = identities(next);  // restored by endMacro
      return;
    }
    record(std::move(next));
  }
  State identities(State next) {  // objects made by the command: noted when they first appear
    for (auto& [k, e] : next.ev) {
      if (e.mef && e.proxy) continue;
      if (e.kind == 'B') note<gm::BasicEvent>(e);
      if (e.kind == 'H') note<gm::HouseEvent>(e);
      if (e.kind == 'G') note<gm::Gate>(e);
    }
    for (auto& [k, f] : next.ft)
      if (!f.mef) {
        auto it = core->table<mef::FaultTree>().find(f.name);
        if (it == core->table<mef::FaultTree>().end()) fail("tree-not-added", where + ": " + f.name);
        f.mef = &*it;
      }
    return next;
  }
  template <class T>
  void note(EvS& e) {
    for (auto& p : gui->table<T>())
      if (gh::s(p->id()) == e.name) {
        e.mef = static_cast<const mef::Event*>(p->data());
        e.proxy = p.get();
        return;
      }
    fail("event-not-added", where + ": " + e.name);
  }
  void record(State next) {
    next = identities(std::move(next));
    hist.resize(idx + 1);
    hist.push_back(std::move(next));
    ++idx;
    if (limit)
      while (static_cast<int>(hist.size()) > limit + 1) {
        hist.erase(hist.begin());
        --idx;
      }
    if (stack.index() != idx || stack.count() != static_cast<int>(hist.size()) - 1) fail("harness", cat(where, ": stack at ", stack.index(), "/", stack.count(), " expected ", idx, "/", hist.size() - 1));
  }
  std::map<std::string, int> expected;  // notifications the single step owes
  bool exact = false;
  void owe(const char* sig, const void* who, int n = 1) { expected[cat(sig, " ", who)] += n; }

  void opLabel() {
    auto v = all();
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    std::string l = rng.chance(0.15) ? n.ev[id].label : label();
    where = cat("label of ", n.ev[id].name, " to '", l, "'");
    auto* p = anyProxy(id);
    if (n.ev[id].label != l) owe("label", n.ev[id].proxy);
    n.ev[id].label = l;
    commit(new gm::Element::SetLabel(p, QString::fromStdString(l)), n);
  }
  void opRename() {
    auto v = all();
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    std::string to = rng.chance(0.1) ? n.ev[id].name : freshName();
    where = cat("rename ", n.ev[id].name, " to ", to);
    if (n.ev[id].name != to) owe("id", n.ev[id].proxy);
    QString q = QString::fromStdString(to);
    QUndoCommand* c = nullptr;
    char k = n.ev[id].kind;
    mef::FaultTree* ft = k == 'G' ? coreTree(n.ev[id].ft) : rng.chance(0.5) ? coreTree(pickTree()) : nullptr;
    if (k == 'B') c = new gm::Element::SetId<gm::BasicEvent>(proxy<gm::BasicEvent>(id), q, core.get(), ft);
    if (k == 'H') c = new gm::Element::SetId<gm::HouseEvent>(proxy<gm::HouseEvent>(id), q, core.get(), ft);
    if (k == 'G') c = new gm::Element::SetId<gm::Gate>(proxy<gm::Gate>(id), q, core.get(), ft);
    n.ev[id].name = to;
    commit(c, n);
  }
  EvS freshEvent(char kind) {
    EvS e;
    e.kind = kind;
    e.name = freshName();
    e.label = label();
    return e;
  }
  std::unique_ptr<mef::BasicEvent> makeBasic(EvS& e) {
    auto b = std::make_unique<mef::BasicEvent>(e.name);
    b->label(e.label);
    if (rng.chance(0.3)) e.attrs.push_back({"flavor", "undeveloped", ""});
    if (rng.chance(0.2)) e.attrs.push_back({"vendor", "acme", "t"});
    for (auto& a : e.attrs) b->AddAttribute({a[0], a[1], a[2]});
    if (rng.chance(0.7)) b->expression(e.expr = newExpression());
    return b;
  }
  std::unique_ptr<mef::HouseEvent> makeHouse(EvS& e) {
    auto h = std::make_unique<mef::HouseEvent>(e.name);
    h->label(e.label);
    h->state(e.state = rng.chance(0.5));
    return h;
  }
  std::unique_ptr<mef::Gate> makeGate(EvS& e, const EvS& f) {
    auto g = std::make_unique<mef::Gate>(e.name);
    g->label(e.label);
    e.conn = f.conn;
    e.min = f.min;
    e.args = f.args;
    g->formula(build(e));
    return g;
  }
  void addTree(State* n, int* id) {
    auto t = std::make_unique<mef::FaultTree>(freshName());
    FtS f;
    f.name = t->name();
    if (rng.chance(0.3)) t->label(f.label = label());
    *id = nextId++;
    n->ft[*id] = f;
    where += cat(" add tree ", f.name);
    commit(new gm::Model::AddFaultTree(std::move(t), gui.get()), *n);
  }
  void opAdd() {
    State n = cur();
    int r = rng.below(3);
    int id = nextId++;
    if (r == 0) {
      EvS e = freshEvent('B');
      where = "add basic event " + e.name;
      auto b = makeBasic(e);
      n.ev[id] = e;
      commit(new gm::Model::AddEvent<gm::BasicEvent>(std::move(b), gui.get()), n);
    } else if (r == 1) {
      EvS e = freshEvent('H');
      where = "add house event " + e.name;
      auto b = makeHouse(e);
      n.ev[id] = e;
      commit(new gm::Model::AddEvent<gm::HouseEvent>(std::move(b), gui.get()), n);
    } else {
      int ft = pickTree();
      auto f = newFormula(-1);
      if (ft < 0 || !f) return;
      EvS e = freshEvent('G');
      e.ft = ft;
      where = "add gate " + e.name;
      auto b = makeGate(e, *f);
      n.ev[id] = e;
      commit(new gm::Model::AddEvent<gm::Gate>(std::move(b), gui.get(), coreTree(ft)), n);
    }
    if (!inMacro) owe("added", cur().ev.at(id).proxy);
  }
  void opRemove() {
    std::vector<int> v;
    for (int k : all())
      if (!hasParents(k)) v.push_back(k);
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    EvS e = n.ev[id];
    where = "remove " + e.name;
    n.ev.erase(id);
    owe("removed", e.proxy);
    QUndoCommand* c = nullptr;
    if (e.kind == 'B') c = new gm::Model::RemoveEvent<gm::BasicEvent>(proxy<gm::BasicEvent>(id), gui.get(), rng.chance(0.5) ? coreTree(pickTree()) : nullptr);
    if (e.kind == 'H') c = new gm::Model::RemoveEvent<gm::HouseEvent>(proxy<gm::HouseEvent>(id), gui.get());
    if (e.kind == 'G') c = new gm::Model::RemoveEvent<gm::Gate>(proxy<gm::Gate>(id), gui.get(), coreTree(e.ft));
    commit(c, n);
  }
  void opExpression() {
    auto v = all("B");
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    int r = rng.below(10);
    mef::Expression* x = r == 0 ? n.ev[id].expr : r <= 2 ? nullptr : newExpression();
    where = "expression of " + n.ev[id].name;
    if (x != n.ev[id].expr) owe("expression", n.ev[id].proxy);
    n.ev[id].expr = x;
    commit(new gm::BasicEvent::SetExpression(proxy<gm::BasicEvent>(id), x), n);
  }
  void opFlavor() {
    auto v = all("B");
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    bool was = flavorOf(n.ev[id]) == "Undeveloped";
    bool to = rng.chance(0.85) ? !was : was;
    where = cat("flavor of ", n.ev[id].name, " to ", to ? "undeveloped" : "basic");
    if (was != to) {
      auto& a = n.ev[id].attrs;
      a.erase(std::remove_if(a.begin(), a.end(), [](auto& x) { return x[0] == "flavor"; }), a.end());
      if (to) a.push_back({"flavor", "undeveloped", ""});
      owe("flavor", n.ev[id].proxy);
    }
    commit(new gm::BasicEvent::SetFlavor(proxy<gm::BasicEvent>(id), to ? gm::BasicEvent::Undeveloped : gm::BasicEvent::Basic), n);
  }
  void opState() {
    auto v = all("H");
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    bool to = rng.chance(0.8) ? !n.ev[id].state : n.ev[id].state;
    where = cat("state of ", n.ev[id].name, " to ", to);
    if (to != n.ev[id].state) owe("state", n.ev[id].proxy);
    n.ev[id].state = to;
    commit(new gm::HouseEvent::SetState(proxy<gm::HouseEvent>(id), to), n);
  }
  void opFormula() {
    auto v = all("G");
    if (v.empty()) return;
    int id = rng.pick(v);
    auto f = newFormula(id);
    if (!f) return;
    State n = cur();
    where = "formula of " + n.ev[id].name;
    n.ev[id].conn = f->conn;
    n.ev[id].min = f->min;
    n.ev[id].args = f->args;
    owe("formula", n.ev[id].proxy);
    commit(new gm::Gate::SetFormula(proxy<gm::Gate>(id), build(*f)), n);
  }
  template <class E>
  QUndoCommand* change(int id, EvS* e, char to, mef::FaultTree* ft) {
    E* p = proxy<E>(id);
    if constexpr (!std::is_same_v<E, gm::BasicEvent>)
      if (to == 'B') return new gm::Model::ChangeEventType<E, gm::BasicEvent>(p, makeBasic(*e), gui.get(), ft);
    if constexpr (!std::is_same_v<E, gm::HouseEvent>)
      if (to == 'H') return new gm::Model::ChangeEventType<E, gm::HouseEvent>(p, makeHouse(*e), gui.get(), ft);
    if constexpr (!std::is_same_v<E, gm::Gate>)
      if (to == 'G') {
        auto f = newFormula(id);
        if (!f) return nullptr;
        return new gm::Model::ChangeEventType<E, gm::Gate>(p, makeGate(*e, *f), gui.get(), ft);
      }
    return nullptr;
  }
  void opType() {
    auto v = all();
    if (v.empty()) return;
    int id = rng.pick(v);
    State n = cur();
    EvS old = n.ev[id];
    std::string kinds = "BHG";
    kinds.erase(kinds.find(old.kind), 1);
    char to = kinds[rng.below(2)];
    int ft = old.kind == 'G' ? old.ft : to == 'G' || rng.chance(0.5) ? pickTree() : -1;
    if (to == 'G' && ft < 0) return;
    EvS e;
    e.kind = to;
    e.name = old.name;
    e.label = rng.chance(0.7) ? old.label : label();
    if (to == 'G') e.ft = ft;
    where = cat("type of ", old.name, " from ", old.kind, " to ", to);
    for (auto& [k, g] : n.ev)
      for (auto& a : g.args)
        if (a.second == id) owe("formula", g.proxy);
    QUndoCommand* c = nullptr;
    if (old.kind == 'B') c = change<gm::BasicEvent>(id, &e, to, coreTree(ft));
    if (old.kind == 'H') c = change<gm::HouseEvent>(id, &e, to, coreTree(ft));
    if (old.kind == 'G') c = change<gm::Gate>(id, &e, to, coreTree(ft));
    if (!c) {
      expected.clear();
      return;
    }
    n.ev[id] = e;
    owe("removed", old.proxy);
    commit(c, n);
    if (!inMacro) owe("added", cur().ev.at(id).proxy);
  }
  void opTree() {
    State n = cur();
    std::vector<int> empty;
    for (auto& [k, f] : n.ft) {
      bool used = false;
      for (auto& [i, e] : n.ev) used |= e.kind == 'G' && e.ft == k;
      if (!used) empty.push_back(k);
    }
    if (!empty.empty() && rng.chance(0.6)) {
      int id = rng.pick(empty);
      where = "remove tree " + n.ft[id].name;
      owe("tree-", n.ft[id].mef);
      mef::FaultTree* t = coreTree(id);
      n.ft.erase(id);
      commit(new gm::Model::RemoveFaultTree(t, gui.get()), n);
    } else {
      int id;
      where = "";
      addTree(&n, &id);
      if (!inMacro) owe("tree+", cur().ft.at(id).mef);
    }
  }
  void opName() {
    static const std::vector<std::string> v{"", "model", "M-1", "\xD0\xBC"};
    State n = cur();
    std::string to = rng.pick(v);
    where = "model name '" + to + "'";
    if (to != n.name) owe("name", gui.get());
    n.name = to;
    commit(new gm::Model::SetName(QString::fromStdString(to), gui.get()), n);
  }
  void simple() {
    switch (rng.below(14)) {
      case 0: return opLabel();
      case 1: case 2: return opRename();
      case 3: case 4: return opAdd();
      case 5: return opRemove();
      case 6: return opExpression();
      case 7: return opFlavor();
      case 8: return opState();
      case 9: case 10: return opFormula();
      case 11: return opType();
      case 12: return opTree();
      default: return opName();
    }
  }
  void macro() {
    State before = cur();
    stack.beginMacro("macro");
    inMacro = true;
    int n = rng.range(1, 4);
    std::string w;
    for (int i = 0; i < n; ++i) {
      simple();
      w += "{" + where + "} ";
    }
    stack.endMacro();
    inMacro = false;
    where = "macro " + w;
    State after = cur();
    hist[idx] = before;
    record(after);
  }
  // returns false when nothing was done
  bool step() {
    mirror->seen.clear();
    expected.clear();
    exact = false;
    where.clear();
    int before = idx;
    State from = cur();
    int r = rng.below(100);
    if (r < 48) {
      simple();
      exact = true;
      gh::count("commands");
    } else if (r < 54) {
      macro();
      gh::count("macros");
    } else if (r < 74) {
      if (!stack.canUndo()) return false;
      where = "undo " + gh::s(stack.undoText());
      stack.undo();
      idx = stack.index();
      gh::count("undos");
    } else if (r < 92) {
      if (!stack.canRedo()) return false;
      where = "redo " + gh::s(stack.redoText());
      stack.redo();
      idx = stack.index();
      gh::count("redos");
    } else {
      int to = rng.below(stack.count() + 1);
      where = cat("jump from ", stack.index(), " to ", to, " of ", stack.count());
      stack.setIndex(to);
      idx = to;
      gh::count("jumps");
    }
    if (where.empty()) return false;
    gh::step(where);
    if (!exact) {
      if (stack.index() != idx) fail("harness", "index");
    }
    (void)before;
    return true;
  }

  template <class T>
  std::set<std::string> parentNames(T* p) {
    std::set<std::string> r;
    for (gm::Gate* g : gui->parents(p->data())) r.insert(gh::s(g->id()));
    return r;
  }
  void checkParents(int id, const std::set<std::string>& got, const std::string& n) {
    std::set<std::string> want;
    for (auto& [k, e] : cur().ev)
      for (auto& a : e.args)
        if (a.second == id) want.insert(e.name);
    if (want != got) fail("parents", cat(where, ": parents of ", n, ": ", got.size(), " found, ", want.size(), " expected"));
  }
  void check() {
    const State& st = cur();
    compare("core-model", render(st), renderCore(*core), where);
    // lookups
    std::map<std::string, int> byName;
    for (auto& [k, e] : st.ev) byName[e.name] = k;
    for (auto& n : names) {
      const void* p = nullptr;
      char kind = '-';
      try {
        auto a = core->GetEvent(n);
        p = ext::as<const mef::Event*>(a);
        kind = std::holds_alternative<mef::Gate*>(a) ? 'G' : std::holds_alternative<mef::BasicEvent*>(a) ? 'B' : 'H';
      } catch (const mef::UndefinedElement&) {
      }
      auto it = byName.find(n);
      if (it == byName.end()) {
        if (p) fail("lookup-of-absent", cat(where, ": '", n, "' is found in the model"));
      } else if (p != st.ev.at(it->second).mef || kind != st.ev.at(it->second).kind) {
        fail("lookup", cat(where, ": '", n, "' is not found as the ", st.ev.at(it->second).kind, " it is"));
      }
    }
    // proxies
    std::size_t nb = 0, nh = 0, ng = 0;
    for (auto& [k, e] : st.ev) {
      if (e.kind == 'B') {
        ++nb;
        auto it = gui->table<gm::BasicEvent>().find(static_cast<const mef::BasicEvent*>(static_cast<const mef::Event*>(e.mef)));
        if (it == gui->table<gm::BasicEvent>().end()) fail("proxy-lookup", where + ": " + e.name);
        gm::BasicEvent* p = it->get();
        if (p != e.proxy) fail("proxy-identity", where + ": " + e.name);
        if (gh::s(p->id()) != e.name || gh::s(p->label()) != e.label || p->expression() != e.expr || gh::s(gm::BasicEvent::flavorToString(p->flavor())) != flavorOf(e) ||
            (e.expr && p->probability() != e.expr->value()) || p->probability<QVariant>() != (e.expr ? QVariant(e.expr->value()) : QVariant()))
          fail("proxy-data", where + ": " + e.name + " flavor " + gh::s(gm::BasicEvent::flavorToString(p->flavor())));
        checkParents(k, parentNames(p), e.name);
      } else if (e.kind == 'H') {
        ++nh;
        auto it = gui->table<gm::HouseEvent>().find(static_cast<const mef::HouseEvent*>(static_cast<const mef::Event*>(e.mef)));
        if (it == gui->table<gm::HouseEvent>().end()) fail("proxy-lookup", where + ": " + e.name);
        gm::HouseEvent* p = it->get();
        if (p != e.proxy) fail("proxy-identity", where + ": " + e.name);
        if (gh::s(p->id()) != e.name || gh::s(p->label()) != e.label || p->state() != e.state || gh::s(p->state<QString>()) != (e.state ? "True" : "False")) fail("proxy-data", where + ": " + e.name);
        checkParents(k, parentNames(p), e.name);
      } else {
        ++ng;
        auto it = gui->table<gm::Gate>().find(static_cast<const mef::Gate*>(static_cast<const mef::Event*>(e.mef)));
        if (it == gui->table<gm::Gate>().end()) fail("proxy-lookup", where + ": " + e.name);
        gm::Gate* p = it->get();
        if (p != e.proxy) fail("proxy-identity", where + ": " + e.name);
        if (gh::s(p->id()) != e.name || gh::s(p->label()) != e.label || p->type() != e.conn || gh::s(p->type<QString>()) != typeOf(e) || p->numArgs() != static_cast<int>(e.args.size()) ||
            p->minNumber().value_or(0) != e.min)
          fail("proxy-data", where + ": " + e.name);
        checkParents(k, parentNames(p), e.name);
      }
    }
    if (gui->basicEvents().size() != nb || gui->houseEvents().size() != nh || gui->gates().size() != ng) fail("proxy-tables", where);
    if (gui->faultTrees().size() != st.ft.size()) fail("proxy-trees", where);
    // notifications
    std::vector<std::string> want, got;
    for (auto& [k, e] : st.ev) {
      std::string l = cat(e.proxy, " ", e.kind, " ", e.name, " ", e.label, " ");
      if (e.kind == 'B') l += cat(flavorOf(e) == "Undeveloped", " ", static_cast<const void*>(e.expr));
      if (e.kind == 'H') l += cat(e.state);
      if (e.kind == 'G') {
        l += cat(typeOf(e), " ", e.min, " ", e.args.size());
        for (auto& a : e.args) l += cat(" ", a.first, st.ev.at(a.second).mef);
      }
      want.push_back(l);
    }
    for (auto& [p, i] : mirror->items) {
      std::string l = cat(p, " ", i.kind, " ", i.id, " ", i.label, " ");
      if (i.kind == 'B') l += cat(i.flavor == gm::BasicEvent::Undeveloped, " ", i.expr);
      if (i.kind == 'H') l += cat(i.state);
      if (i.kind == 'G') l += i.formula;
      got.push_back(l);
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    compare("notifications", want, got, where);
    std::set<const void*> trees;
    for (auto& [k, f] : st.ft) trees.insert(f.mef);
    if (trees != mirror->trees) fail("notifications-trees", where);
    if (mirror->name != st.name) fail("notifications-name", where);
    if (exact && mirror->seen != expected) {
      std::string d;
      for (auto& [k, n] : mirror->seen)
        if (!expected.count(k) || expected[k] != n) d += cat(" got ", n, " of ", k);
      for (auto& [k, n] : expected)
        if (!mirror->seen.count(k)) d += cat(" missing ", k);
      fail("notification-count", where + ":" + d);
    }
    gh::count("states-checked");
    if (tables) checkTables();
  }

  // ---- tables
  std::map<int, gh::DiagramNode> drawn() {
    std::map<int, gh::DiagramNode> r;
    for (auto& [k, e] : cur().ev) {
      gh::DiagramNode n;
      n.kind = e.kind == 'B' && flavorOf(e) == "Undeveloped" ? 'U' : e.kind;
      n.name = e.name;
      n.label = e.label;
      n.conn = e.conn;
      n.min = e.min;
      for (auto& a : e.args) n.args.push_back(a.second);
      n.proxy = e.proxy;
      r[k] = n;
    }
    return r;
  }
  void attach() {
    bt = std::make_unique<gm::BasicEventContainerModel>(gui.get());
    ht = std::make_unique<gm::HouseEventContainerModel>(gui.get());
    gt = std::make_unique<gm::GateContainerModel>(gui.get());
    tree = std::make_unique<gui::ModelTree>(gui.get());
    proxies.push_back(std::make_unique<gm::SortFilterProxyModel>());
    proxies.push_back(std::make_unique<gm::SortFilterProxyModel>());
    proxies.push_back(std::make_unique<gm::GateSortFilterProxyModel>());
    QAbstractItemModel* src[] = {bt.get(), ht.get(), gt.get()};
    const char* what[] = {"basic-events", "house-events", "gates"};
    for (int i = 0; i < 3; ++i) {
      mirrors.push_back(std::make_unique<TableMirror>(src[i], what[i]));
      proxies[i]->setSourceModel(src[i]);
      pmirrors.push_back(std::make_unique<TableMirror>(proxies[i].get(), cat("sorted-", what[i])));
      if (i < 2) {
        auto v = std::make_unique<QTableView>();
        v->setModel(proxies[i].get());
        v->setSortingEnabled(true);
        v->resize(500, 300);
        v->show();
        views.push_back(std::move(v));
      } else {
        auto v = std::make_unique<QTreeView>();
        v->setModel(proxies[i].get());
        v->setSortingEnabled(true);
        v->resize(500, 300);
        v->show();
        v->expandAll();
        views.push_back(std::move(v));
      }
    }
    auto v = std::make_unique<QTreeView>();
    v->setModel(tree.get());
    v->show();
    v->expandAll();
    views.push_back(std::move(v));
    auto top = [this](int r) { return gh::s(tree->index(r, 0, {}).data().toString()); };
    for (int i = 0; i < 4; ++i) treeTop.push_back(top(i));
    auto root = tree->index(0, 0, {});
    for (int i = 0; i < tree->rowCount(root); ++i) treeKids.push_back(gh::s(tree->index(i, 0, root).data().toString()));
    QObject::connect(tree.get(), &QAbstractItemModel::dataChanged, mirror.get(), [this, top](const QModelIndex& a, const QModelIndex& b) {
      if (a.parent().isValid()) return;
      for (int r = a.row(); r <= b.row(); ++r) treeTop.at(r) = top(r);
    });
    QObject::connect(tree.get(), &QAbstractItemModel::rowsInserted, mirror.get(), [this](const QModelIndex& p, int a, int b) {
      if (!p.isValid() || p.row() != 0) fail("model-tree-parent", where);
      for (int r = a; r <= b; ++r) treeKids.insert(treeKids.begin() + r, gh::s(tree->index(r, 0, p).data().toString()));
    });
    QObject::connect(tree.get(), &QAbstractItemModel::rowsRemoved, mirror.get(), [this](const QModelIndex& p, int a, int b) {
      if (!p.isValid() || p.row() != 0) fail("model-tree-parent", where);
      treeKids.erase(treeKids.begin() + a, treeKids.begin() + b + 1);
    });
    if (std::getenv("GUI_TESTER"))
      for (QAbstractItemModel* m : {static_cast<QAbstractItemModel*>(bt.get()), static_cast<QAbstractItemModel*>(ht.get())})
        testers.push_back(std::make_unique<QAbstractItemModelTester>(m, QAbstractItemModelTester::FailureReportingMode::Fatal));
  }
  void checkTables() {
    const State& st = cur();
    QAbstractItemModel* src[] = {bt.get(), ht.get(), gt.get()};
    static const std::vector<std::vector<std::string>> heads{{"ID", "Flavor", "Probability", "Label"}, {"ID", "State", "Label"}, {"ID", "Connective", "Args", "Label"}};
    for (int i = 0; i < 3; ++i) {
      mirrors[i]->check(where);
      pmirrors[i]->check(where);
      QAbstractItemModel* m = src[i];
      const std::string& what = mirrors[i]->what;
      if (m->columnCount() != static_cast<int>(heads[i].size())) fail("columns:" + what, where);
      for (int c = 0; c < m->columnCount(); ++c)
        for (QAbstractItemModel* h : {m, static_cast<QAbstractItemModel*>(proxies[i].get())})
          if (gh::s(h->headerData(c, Qt::Horizontal, Qt::DisplayRole).toString()) != heads[i][c]) fail("header:" + what, cat(where, " column ", c));
      char kind = "BHG"[i];
      std::map<std::string, const EvS*> want;
      for (auto& [k, e] : st.ev)
        if (e.kind == kind) want[e.name] = &e;
      std::set<std::string> shown;
      std::vector<std::pair<std::string, const void*>> order;
      for (int r = 0; r < m->rowCount(); ++r) {
        QModelIndex x = m->index(r, 0);
        std::string n = gh::s(x.data().toString());
        if (!want.count(n)) fail("row-of-absent:" + what, cat(where, ": row ", r, " shows ", n));
        if (!shown.insert(n).second) fail("row-twice:" + what, cat(where, ": ", n));
        const EvS& e = *want[n];
        if (x.data(Qt::UserRole).value<void*>() != e.proxy) fail("row-element:" + what, cat(where, ": row ", r, " (", n, ") stands for another element"));
        std::vector<QVariant> cells{QString::fromStdString(n)};
        QString lab = QString::fromStdString(e.label);
        if (kind == 'B') cells.insert(cells.end(), {QString::fromStdString(flavorOf(e)), e.expr ? QVariant(e.expr->value()) : QVariant(), lab});
        if (kind == 'H') cells.insert(cells.end(), {QString(e.state ? "True" : "False"), lab});
        if (kind == 'G') cells.insert(cells.end(), {QString::fromStdString(typeOf(e)), static_cast<int>(e.args.size()), lab});
        auto got = mirrors[i]->readRow(r);
        if (got != cells) fail("row-cells:" + what, cat(where, ": row ", r, " is ", TableMirror::str(got), " expected ", TableMirror::str(cells)));
        if (kind == 'G') {
          if (m->rowCount(x) != static_cast<int>(e.args.size())) fail("children:" + what, cat(where, ": ", n));
          for (int a = 0; a < m->rowCount(x); ++a) {
            QModelIndex y = m->index(a, 0, x);
            if (gh::s(y.data().toString()) != st.ev.at(e.args[a].second).name) fail("child:" + what, cat(where, ": ", n, " argument ", a, " shows ", gh::s(y.data().toString())));
            if (m->parent(y) != x) fail("child-parent:" + what, cat(where, ": ", n));
          }
        }
        gh::count("rows-checked");
      }
      if (shown.size() != want.size()) fail("row-missing:" + what, cat(where, ": ", shown.size(), " rows for ", want.size(), " elements"));
      // the sorted and filtered picture
      QSortFilterProxyModel* p = proxies[i].get();
      QRegExp re = p->filterRegExp();
      std::set<const void*> sel, have;
      for (auto& [n, e] : want) {
        auto* el = e->proxy;
        bool in = true;
        if (!re.isEmpty()) {
          in = false;
          for (int r = 0; r < m->rowCount(); ++r)
            if (m->index(r, 0).data(Qt::UserRole).value<void*>() == el)
              for (int c = 0; c < m->columnCount(); ++c)
                if ((p->filterKeyColumn() == c || p->filterKeyColumn() < 0) && re.indexIn(m->index(r, c).data().toString()) >= 0) in = true;
        }
        if (in) sel.insert(el);
      }
      QVariant last;
      int sc = p->sortColumn();
      for (int r = 0; r < p->rowCount(); ++r) {
        QModelIndex x = p->index(r, 0);
        void* el = x.data(Qt::UserRole).value<void*>();
        if (!have.insert(el).second) fail("filtered-twice:" + what, where);
        QModelIndex sx = p->mapToSource(x);
        for (int c = 0; c < p->columnCount(); ++c)
          if (p->index(r, c).data() != m->index(sx.row(), c).data()) fail("filtered-cell:" + what, cat(where, " row ", r, " column ", c));
        if (m->index(sx.row(), 0).data(Qt::UserRole).value<void*>() != el) fail("filtered-map:" + what, cat(where, " row ", r));
        if (kind == 'G') {
          if (p->rowCount(x) != m->rowCount(m->index(sx.row(), 0))) fail("filtered-children:" + what, cat(where, " row ", r));
          for (int a = 0; a < p->rowCount(x); ++a)
            if (p->index(a, 0, x).data() != m->index(a, 0, m->index(sx.row(), 0)).data()) fail("filtered-child:" + what, cat(where, " row ", r, " argument ", a));
        }
        if (sc >= 0) {
          QVariant v = p->index(r, sc).data();
          if (r) {
            bool ok = true;
            bool asc = p->sortOrder() == Qt::AscendingOrder;
            const QVariant &a = asc ? last : v, &b = asc ? v : last;
            if (!a.isValid()) ok = !b.isValid();
            else if (!b.isValid()) ok = true;
            else if (a.type() == QVariant::String) ok = a.toString() <= b.toString();
            else ok = a.toDouble() <= b.toDouble();
            if (!ok) fail("not-sorted:" + what, cat(where, ": column ", sc, " row ", r, ": ", TableMirror::str(last), " then ", TableMirror::str(v)));
          }
          last = v;
        }
      }
      if (sel != have) fail("filter:" + what, cat(where, ": ", have.size(), " rows pass, ", sel.size(), " expected (", gh::s(re.pattern()), ")"));
      gh::count("sorted-rows-checked", p->rowCount());
    }
    for (auto& pi : persistent) {
      if (!pi.isValid() || pi.parent().isValid()) continue;
      if (pi.row() >= pi.model()->rowCount()) fail("persistent-row", where);
      QModelIndex now = pi.model()->index(pi.row(), pi.column());
      if (pi.data(Qt::UserRole) != now.data(Qt::UserRole)) fail("persistent-stale", cat(where, ": a remembered index of row ", pi.row(), " points at an element that row no longer shows"));
      if (pi.data() != now.data()) fail("persistent-stale-data", where);
      gh::count("persistent-checked");
    }
    // the model tree
    std::vector<std::string> top, kids;
    long n[3] = {0, 0, 0};
    for (auto& [k, e] : st.ev) ++n[e.kind == 'G' ? 0 : e.kind == 'B' ? 1 : 2];
    QLocale loc;
    auto num = [&loc](long v) { return gh::s(loc.toString(static_cast<qlonglong>(v))); };
    std::vector<std::string> want{"Fault Trees (" + num(st.ft.size()) + ")", "Gates (" + num(n[0]) + ")", "Basic Events (" + num(n[1]) + ")", "House Events (" + num(n[2]) + ")"};
    for (int i = 0; i < 4; ++i) {
      std::string now = gh::s(tree->index(i, 0, {}).data().toString());
      if (now != want[i]) fail("model-tree", cat(where, ": ", now, " expected ", want[i]));
      if (treeTop[i] != now) fail("model-tree-not-announced", cat(where, ": shows ", treeTop[i], " holds ", now));
    }
    auto root = tree->index(0, 0, {});
    std::set<std::string> ft;
    for (auto& [k, f] : st.ft) ft.insert(f.name);
    std::vector<std::string> sorted(ft.begin(), ft.end()), now;
    for (int i = 0; i < tree->rowCount(root); ++i) {
      QModelIndex x = tree->index(i, 0, root);
      now.push_back(gh::s(x.data().toString()));
      auto* t = static_cast<mef::FaultTree*>(x.data(Qt::UserRole).value<void*>());
      if (t->name() != now.back()) fail("model-tree-element", where);
      if (tree->parent(x) != root) fail("model-tree-child", where);
    }
    if (now != sorted) fail("model-tree-children", where);
    if (treeKids != now) fail("model-tree-children-not-announced", where);
  }
  void fiddle() {  // what a user does with the tables between the edits
    QAbstractItemModel* src[] = {bt.get(), ht.get(), gt.get()};
    int i = rng.below(3);
    QSortFilterProxyModel* p = proxies[i].get();
    switch (rng.below(6)) {
      case 0:
      case 1: {
        int c = rng.below(src[i]->columnCount());
        Qt::SortOrder o = rng.chance(0.5) ? Qt::AscendingOrder : Qt::DescendingOrder;
        gh::step(cat("sort table ", i, " by ", c, " ", o));
        if (auto* v = qobject_cast<QTableView*>(views[i].get())) v->sortByColumn(c, o);
        if (auto* v = qobject_cast<QTreeView*>(views[i].get())) v->sortByColumn(c, o);
        break;
      }
      case 2: {
        static const std::vector<std::string> f{"", "", "n", "1", "^p", "[0-4]$", "e|v", "True", "and"};
        std::string re = rng.pick(f);
        gh::step(cat("filter table ", i, " by ", re));
        p->setFilterKeyColumn(rng.chance(0.5) ? 0 : rng.below(src[i]->columnCount()));
        p->setFilterRegExp(QString::fromStdString(re));
        break;
      }
      case 3: {
        QAbstractItemModel* m = rng.chance(0.5) ? src[i] : p;
        if (m->rowCount()) {
          persistent.emplace_back(m->index(rng.below(m->rowCount()), rng.below(m->columnCount())));
          if (persistent.size() > 20) persistent.erase(persistent.begin());
        }
        break;
      }
      case 4:
        if (p->rowCount()) {
          QModelIndex x = p->index(rng.below(p->rowCount()), 0);
          views[i]->setCurrentIndex(x);
          views[i]->scrollTo(x);
        }
        break;
      default:
        if (auto* v = qobject_cast<QTreeView*>(views[2].get())) v->expandAll();
    }
    where = "after fiddling: " + where;
  }
};

}  // namespace

namespace gh {

int history(int argc, char** argv) {
  if (argc < 5) return 2;
  bool tables = std::string(argv[1]) == "tables", diagrams = std::string(argv[1]) == "diagrams";
  long steps = std::atol(argv[4]);
  {
    Walk w(argv[2], std::strtoul(argv[3], nullptr, 10), tables);
    w.where = "loaded";
    w.check();
    Diagrams tabs(w.gui.get(), &w.rng);
    for (long i = 0; i < steps; ++i) {
      if (diagrams && w.rng.chance(i < 3 ? 1 : .06)) tabs.open(w.drawn());
      if (diagrams && w.rng.chance(.04)) tabs.close();
      if (!w.step()) continue;
      w.check();
      if (diagrams) {
        auto st = w.drawn();
        tabs.check(st, w.where);
        while (w.rng.chance(.3)) tabs.fiddle(st, w.where);
      }
      if (tables) {
        while (w.rng.chance(0.4)) {
          w.fiddle();
          w.exact = false;
          w.check();
        }
        if (w.rng.chance(0.1)) {
          for (auto& v : w.views) v->grab();
          gh::count("paints");
        }
        QApplication::processEvents();
      }
    }
    // all the way back, and all the way forth
    w.exact = false;
    while (w.stack.canUndo()) {
      w.where = "final undo " + s(w.stack.undoText());
      w.stack.undo();
      w.idx = w.stack.index();
      gh::step(w.where);
      w.check();
      if (diagrams) tabs.check(w.drawn(), w.where);
    }
    while (w.stack.canRedo()) {
      w.where = "final redo " + s(w.stack.redoText());
      w.stack.redo();
      w.idx = w.stack.index();
      gh::step(w.where);
      w.check();
      if (diagrams) tabs.check(w.drawn(), w.where);
    }
  }
  return 0;
}

}  // namespace gh
