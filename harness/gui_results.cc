// The result tables of the GUI over analyses of the core, printed next to the core's own report.
//
//   gui_driver results MODEL.xml REPORT.xml ALGORITHM APPROXIMATION PRIME PROB IMP CCF LIMIT MISSION
#include <algorithm>
#include <memory>

#include <QApplication>
#include <QLocale>
#include <QSortFilterProxyModel>
#include <QTableView>
#include <QTreeView>

#include "src/initializer.h"
#include "src/reporter.h"
#include "src/risk_analysis.h"
#include "src/settings.h"

#include "elementcontainermodel.h"
#include "gui_harness.h"
#include "importancetablemodel.h"
#include "producttablemodel.h"
#include "reporttree.h"

using namespace scram;
namespace gm = scram::gui::model;

namespace {
using gh::cat;
using gh::fail;
using gh::s;

std::string hex(const QString& q) {
  std::string r;
  char b[8];
  for (unsigned char c : s(q)) std::snprintf(b, sizeof b, "%02x", c), r += b;
  return r.empty() ? "-" : r;
}
std::string cell(const QVariant& v) {
  if (v.type() == QVariant::Double) {
    char b[40];
    std::snprintf(b, sizeof b, "D%.17g", v.toDouble());
    return b;
  }
  if (v.type() == QVariant::Int) return cat("I", v.toInt());
  if (v.type() == QVariant::String) return "S" + hex(v.toString());
  return cat("?", v.typeName() ? v.typeName() : "invalid");
}
using Row = std::vector<std::string>;
Row row(QAbstractItemModel* m, int r) {
  Row v;
  for (int c = 0; c < m->columnCount(); ++c) v.push_back(cell(m->index(r, c).data()));
  return v;
}
std::vector<Row> all(QAbstractItemModel* m) {
  std::vector<Row> v;
  for (int r = 0; r < m->rowCount(); ++r) v.push_back(row(m, r));
  return v;
}
void table(const std::string& what, QAbstractItemModel* m) {
  auto rows = all(m);
  std::string head;
  for (int c = 0; c < m->columnCount(); ++c) head += " " + hex(m->headerData(c, Qt::Horizontal, Qt::DisplayRole).toString());
  std::printf("TABLE %s%s\n", what.c_str(), head.c_str());
  for (auto& r : rows) {
    std::string l;
    for (auto& c : r) l += " " + c;
    std::printf("ROW%s\n", l.c_str());
  }
  if ((!rows.empty() && m->rowCount(m->index(0, 0)) != 0) || (!rows.empty() && m->columnCount(m->index(0, 0)) != 0)) fail("table-children:" + what, "");
  // The picture after sorting and filtering, as the main window sets it up.
  QTableView view;
  gm::SortFilterProxyModel proxy;
  proxy.setSourceModel(m);
  view.setModel(&proxy);
  view.setSortingEnabled(true);
  view.resize(600, 300);
  view.show();
  std::vector<Row> sorted = rows;
  std::sort(sorted.begin(), sorted.end());
  for (int c = 0; c < m->columnCount(); ++c) {
    for (Qt::SortOrder o : {Qt::AscendingOrder, Qt::DescendingOrder}) {
      view.sortByColumn(c, o);
      auto now = all(&proxy);
      auto perm = now;
      std::sort(perm.begin(), perm.end());
      if (perm != sorted) fail("sort-changes-rows:" + what, cat("column ", c));
      for (int r = 0; r + 1 < proxy.rowCount(); ++r) {
        QVariant a = proxy.index(r, c).data(), b = proxy.index(r + 1, c).data();
        if (o == Qt::DescendingOrder) std::swap(a, b);
        bool ok = a.type() == QVariant::String ? a.toString() <= b.toString() : a.toDouble() <= b.toDouble();
        if (!ok) fail("not-sorted:" + what, cat("column ", c, " row ", r));
      }
      gh::count("sorted-orders");
    }
    for (const char* f : {"", "1", "e", "^a", "\u00ac"}) {
      proxy.setFilterKeyColumn(c);
      QRegExp re(QString::fromUtf8(f), Qt::CaseInsensitive);
      proxy.setFilterRegExp(re);
      std::vector<Row> want, got = all(&proxy);
      for (int r = 0; r < m->rowCount(); ++r)
        if (re.isEmpty() || re.indexIn(m->index(r, c).data().toString()) >= 0) want.push_back(row(m, r));
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      if (want != got) fail("filter:" + what, cat("column ", c, " by ", f, ": ", got.size(), " rows, ", want.size(), " expected"));
      gh::count("filters");
    }
    proxy.setFilterRegExp(QRegExp());
  }
  view.grab();
}

}  // namespace

namespace gh {

int results(int argc, char** argv) {
  if (argc < 12) return 2;
  core::Settings set;
  auto flag = [&](int i) { return std::string(argv[i]) == "1"; };
  set.algorithm(std::string_view(argv[4]));
  set.approximation(std::string_view(argv[5]));
  set.prime_implicants(flag(6));
  set.probability_analysis(flag(7));
  set.importance_analysis(flag(8));
  set.ccf_analysis(flag(9));
  set.limit_order(std::atoi(argv[10]));
  set.mission_time(std::atof(argv[11]));
  auto model = mef::Initializer({argv[2]}, set).model();
  core::RiskAnalysis an(model.get(), set);
  an.Analyze();
  Reporter().Report(an, std::string(argv[3]));
  gui::ReportTree tree(&an.results());
  QTreeView tv;
  tv.setModel(&tree);
  tv.expandAll();
  tv.show();
  if (tree.columnCount({}) != 1) fail("report-columns", "");
  std::printf("RESULTS %d\n", tree.rowCount({}));
  QLocale loc;
  for (int i = 0; i < tree.rowCount({}); ++i) {
    QModelIndex x = tree.index(i, 0, {});
    const core::RiskAnalysis::Result& r = an.results()[i];
    int n = tree.rowCount(x);
    std::printf("TOP %s %d\n", hex(x.data().toString()).c_str(), n);
    for (int k = 0; k < n; ++k) {
      QModelIndex y = tree.index(k, 0, x);
      if (tree.parent(y) != x || tree.rowCount(y) != 0) fail("report-structure", cat("row ", i, " child ", k));
      if (tree.data(y, Qt::DisplayRole) != y.data()) fail("report-data", "");
      std::printf("CHILD %s\n", hex(y.data().toString()).c_str());
    }
    std::printf("LOCALE %s %s\n", hex(loc.toString(static_cast<qlonglong>(r.fault_tree_analysis->products().size()))).c_str(),
                r.importance_analysis ? hex(loc.toString(static_cast<qlonglong>(r.importance_analysis->importance().size()))).c_str() : "-");
    gm::ProductTableModel pm(r.fault_tree_analysis->products(), r.probability_analysis != nullptr);
    table("products", &pm);
    if (r.importance_analysis) {
      gm::ImportanceTableModel im(&r.importance_analysis->importance());
      table("importance", &im);
    }
    gh::count("results");
  }
  tv.grab();
  std::fflush(stdout);
  return 0;
}

}  // namespace gh
