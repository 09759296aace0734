// Drives the main window the way a user does, from a script of JSON lines, and reports what the user sees.
//
//   gui_driver window SCRIPT
#include <algorithm>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

#include <QAbstractItemView>
#include <QAction>
#include <QApplication>
#include <QCheckBox>
#include <QCompleter>
#include <QComboBox>
#include <QStatusBar>
#include <QMenu>
#include <QCommandLinkButton>
#include <QDialog>
#include <QDialogButtonBox>
#include <QDoubleSpinBox>
#include <QElapsedTimer>
#include <QFileDialog>
#include <QGroupBox>
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QKeyEvent>
#include <QLineEdit>
#include <QListView>
#include <QListWidget>
#include <QMessageBox>
#include <QPlainTextEdit>
#include <QProgressDialog>
#include <QPushButton>
#include <QRadioButton>
#include <QSpinBox>
#include <QTabWidget>
#include <QTableView>
#include <QTimer>
#include <QTreeView>
#include <QUndoStack>

#include "src/error.h"

#include "eventdialog.h"
#include "gui_harness.h"
#include "mainwindow.h"

using namespace scram;

namespace {
using gh::fail;

void key(QWidget* w, int k, const QString& text = {}, Qt::KeyboardModifiers m = Qt::NoModifier) {
  QKeyEvent p(QEvent::KeyPress, k, m, text), r(QEvent::KeyRelease, k, m, text);
  QApplication::sendEvent(w, &p);
  QApplication::sendEvent(w, &r);
}
bool usable(QWidget* w) { return w && w->isEnabled() && w->isVisible(); }
// Replaces the text as keystrokes do: the validators see every character.
void type(QLineEdit* e, const QString& text) {
  e->selectAll();
  key(e, Qt::Key_Delete);
  for (int i = 0; i < text.size(); ++i) {
    QString c(text[i]);
    if (text[i].isHighSurrogate() && i + 1 < text.size()) c += text[++i];
    key(e, 0, c);
  }
  if (e->completer()) e->completer()->popup()->hide();
}
bool choose(QComboBox* b, int i) {
  if (!usable(b) || i >= b->count()) return false;
  if (auto* v = qobject_cast<QListView*>(b->view()))
    if (v->isRowHidden(i)) return false;
  b->setCurrentIndex(i);
  return true;
}

struct User {
  scram::gui::MainWindow& win;
  bool app = false;   // the real program: its event loop calls
  bool quit = false;
  std::function<void(QWidget*)> plan;  // what to do with the next dialog
  QJsonObject out;
  QJsonArray boxes;
  std::set<QWidget*> busy;
  std::map<QWidget*, int> patience;
  QMessageBox::StandardButton answer = QMessageBox::NoButton;
  bool waiting = false;

  template <class T>
  T* get(const char* name, QObject* in = nullptr) {
    T* t = (in ? in : &win)->findChild<T*>(name);
    if (!t) fail("missing-widget", name);
    return t;
  }
  QUndoStack* stack() {
    auto* s = win.findChild<QUndoStack*>();
    if (!s) fail("missing-widget", "undo stack");
    return s;
  }
  void tick() {
    QTimer::singleShot(2, [this] { tick(); });
    QWidget* w = QApplication::activeModalWidget();
    if (!w || busy.count(w)) return;
    if (qobject_cast<QProgressDialog*>(w)) return;
    if (!w->isActiveWindow() && patience[w]++ < 500) return w->activateWindow();  // a user waits until it has the focus
    patience.erase(w);
    busy.insert(w);
    QObject::connect(w, &QObject::destroyed, [this, w] { busy.erase(w); });
    if (auto* b = qobject_cast<QMessageBox*>(w)) {
      QJsonObject o{{"title", b->windowTitle()}, {"text", b->text()}, {"info", b->informativeText()}, {"detail", b->detailedText()}};
      boxes.append(o);
      gh::count("message-boxes");
      QAbstractButton* btn = answer != QMessageBox::NoButton ? b->button(answer) : nullptr;
      if (!btn) btn = b->defaultButton() ? b->defaultButton() : b->buttons().isEmpty() ? nullptr : b->buttons().front();
      if (btn) btn->click();
      else b->reject();
    } else if (plan) {
      auto p = std::move(plan);
      plan = nullptr;
      p(w);
    } else {
      fail("unexpected-dialog", gh::cat(w->metaObject()->className(), " ", gh::s(w->windowTitle())));
    }
    busy.erase(w);
    if (QApplication::activeModalWidget() == w && w->isVisible()) busy.insert(w);
  }

  // ---- the event dialog
  QJsonObject fields(QDialog* d) {
    QJsonObject o;
    auto* typeBox = get<QComboBox>("typeBox", d);
    o["type"] = typeBox->currentIndex();
    QJsonArray hidden;
    for (int i = 0; i < typeBox->count(); ++i)
      if (static_cast<QListView*>(typeBox->view())->isRowHidden(i)) hidden.append(i);
    o["hidden"] = hidden;
    o["name"] = get<QLineEdit>("nameLine", d)->text();
    o["label"] = get<QPlainTextEdit>("labelText", d)->toPlainText();
    o["state"] = get<QComboBox>("stateBox", d)->currentIndex();
    o["expr"] = get<QGroupBox>("expressionBox", d)->isChecked();
    o["etype"] = get<QComboBox>("expressionType", d)->currentIndex();
    o["value"] = get<QLineEdit>("constantValue", d)->text();
    o["rate"] = get<QLineEdit>("exponentialRate", d)->text();
    o["conn"] = get<QComboBox>("connectiveBox", d)->currentIndex();
    o["min"] = get<QSpinBox>("minNumberBox", d)->value();
    o["tree"] = get<QLineEdit>("containerFaultTreeName", d)->text();
    QJsonArray args;
    auto* list = get<QListWidget>("argsList", d);
    for (int i = 0; i < list->count(); ++i) args.append(list->item(i)->text());
    o["args"] = args;
    for (const char* n : {"tabBoolean", "tabExpression", "tabFormula", "pageConstant", "pageExponential"})
      if (get<QWidget>(n, d)->isVisible()) o["page"] = o["page"].toString() + n + " ";
    return o;
  }
  QPushButton* ok(QDialog* d) {
    auto* b = d->findChild<QDialogButtonBox*>();
    if (!b) fail("missing-widget", "button box");
    auto* p = b->button(QDialogButtonBox::Ok);
    if (!p) fail("missing-widget", "OK button");
    return p;
  }
  void finish(QDialog* d, bool accept) {
    QPushButton* p = ok(d);
    out["ok"] = p->isEnabled();
    out["default"] = p->isDefault();
    bool acc = accept && p->isEnabled();
    out["accepted"] = acc;
    if (acc) p->click();
    else key(d, Qt::Key_Escape);
    if (d->isVisible()) {
      out["stuck"] = true;
      d->reject();
    }
  }
  void eventDialog(QWidget* w, const QJsonObject& step) {
    auto* d = qobject_cast<scram::gui::EventDialog*>(w);
    if (!d) fail("wrong-dialog", gh::s(w->windowTitle()));
    out["initial"] = fields(d);
    out["initial_ok"] = ok(d)->isEnabled();
    QJsonArray skipped;
    for (const QJsonValue& v : step["fields"].toArray()) {
      QJsonArray a = v.toArray();
      QString what = a[0].toString();
      bool done = true;
      auto line = [&](const char* n) {
        auto* e = get<QLineEdit>(n, d);
        if (!usable(e)) return false;
        type(e, a[1].toString());
        return true;
      };
      if (what == "type") done = choose(get<QComboBox>("typeBox", d), a[1].toInt());
      else if (what == "name") done = line("nameLine");
      else if (what == "value") done = line("constantValue");
      else if (what == "rate") done = line("exponentialRate");
      else if (what == "tree") done = line("containerFaultTreeName");
      else if (what == "label") {
        auto* e = get<QPlainTextEdit>("labelText", d);
        e->selectAll();
        e->insertPlainText(a[1].toString());
      } else if (what == "state") done = choose(get<QComboBox>("stateBox", d), a[1].toInt());
      else if (what == "expr") {
        auto* g = get<QGroupBox>("expressionBox", d);
        if ((done = usable(g))) g->setChecked(a[1].toBool());
      } else if (what == "etype") done = choose(get<QComboBox>("expressionType", d), a[1].toInt());
      else if (what == "conn") done = choose(get<QComboBox>("connectiveBox", d), a[1].toInt());
      else if (what == "min") {
        auto* s = get<QSpinBox>("minNumberBox", d);
        if ((done = usable(s))) s->setValue(a[1].toInt());
      } else if (what == "arg") {
        auto* e = get<QLineEdit>("addArgLine", d);
        if ((done = usable(e))) {
          e->setFocus();
          type(e, a[1].toString());
          if (a[2].toString() == "button") get<QPushButton>("addArgButton", d)->click();
          else key(e, Qt::Key_Return, "\r");
          if (!d->isVisible()) {
            out["closed"] = true;
            return;
          }
        }
      } else if (what == "unarg") {
        auto* l = get<QListWidget>("argsList", d);
        if ((done = usable(l))) {
          auto items = l->findItems(a[1].toString(), Qt::MatchExactly | Qt::MatchCaseSensitive);
          if (!items.isEmpty()) l->setCurrentItem(items.front());
          else l->setCurrentItem(nullptr);
          get<QPushButton>("removeArgButton", d)->click();
        }
      } else {
        fail("script", gh::s(what));
      }
      if (!done) skipped.append(what);
      gh::count("fields");
    }
    if (step["grab"].toBool()) d->grab();
    out["skipped"] = skipped;
    out["final"] = fields(d);
    finish(d, step["accept"].toBool(true));
  }

  // ---- tables
  QAbstractItemView* table(int row) {
    auto* tree = get<QTreeView>("modelTree");
    auto* tabs = get<QTabWidget>("tabWidget");
    int n = tabs->count();
    if (n > 8) {
      emit tabs->tabCloseRequested(0);
      n = tabs->count();
    }
    emit tree->activated(tree->model()->index(row, 0));
    if (tabs->count() != n + 1) fail("no-table", gh::cat(row));
    auto* v = qobject_cast<QAbstractItemView*>(tabs->currentWidget());
    if (!v) fail("no-table", gh::cat(row));
    return v;
  }
  QModelIndex find(QAbstractItemView* v, const QString& name) {
    for (int r = 0; r < v->model()->rowCount(); ++r)
      if (v->model()->index(r, 0).data().toString() == name) return v->model()->index(r, 0);
    return {};
  }
  QJsonArray names(QAbstractItemView* v) {
    QJsonArray a;
    for (int r = 0; r < v->model()->rowCount(); ++r) {
      QJsonArray row;
      for (int c = 0; c < v->model()->columnCount(); ++c) {
        QVariant x = v->model()->index(r, c).data();
        row.append(x.type() == QVariant::Double ? QJsonValue(x.toDouble()) : x.isValid() ? QJsonValue(x.toString()) : QJsonValue());
      }
      a.append(row);
    }
    return a;
  }
  void file(QWidget* w, const QString& path) {
    auto* d = qobject_cast<QFileDialog*>(w);
    if (!d) fail("wrong-dialog", gh::s(w->windowTitle()));
    if (path.isEmpty()) return d->reject();
    auto* e = d->findChild<QLineEdit*>("fileNameEdit");
    if (!e) fail("missing-widget", "file name");
    e->setText(path);
    QMetaObject::invokeMethod(d, "accept");
    if (d->isVisible()) d->reject(), out["stuck"] = true;
  }
  void trigger(const char* action) {
    auto* a = get<QAction>(action);
    out["enabled"] = a->isEnabled();
    if (a->isEnabled()) a->trigger();
  }

  void perform(const QJsonObject& step) {
    QString op = step["op"].toString();
    answer = static_cast<QMessageBox::StandardButton>(step["answer"].toInt(QMessageBox::NoButton));
    if (op == "open") {
      std::vector<std::string> files;
      for (const QJsonValue& f : step["files"].toArray()) files.push_back(gh::s(f.toString()));
      out["opened"] = win.addInputFiles(files);
    } else if (op == "openfiles") {
      QStringList names;
      for (const QJsonValue& f : step["files"].toArray()) names << "\"" + f.toString() + "\"";
      plan = [this, names](QWidget* w) { file(w, names.join(" ")); };
      trigger("actionOpenFiles");
    } else if (op == "project") {
      std::vector<std::string> files;
      for (const QJsonValue& f : step["files"].toArray()) files.push_back(gh::s(f.toString()));
      out["opened"] = win.setProjectFile(gh::s(step["file"].toString()), files);
    } else if (op == "new") {
      trigger("actionNewModel");
    } else if (op == "add") {
      plan = [this, step](QWidget* w) { eventDialog(w, step); };
      trigger("actionAddElement");
    } else if (op == "edit") {
      auto* v = table(step["table"].toInt());
      QModelIndex x = find(v, step["name"].toString());
      out["found"] = x.isValid();
      if (x.isValid()) {
        plan = [this, step](QWidget* w) { eventDialog(w, step); };
        emit v->activated(x);
      }
    } else if (op == "remove") {
      auto* v = table(step["table"].toInt());
      QModelIndex x = find(v, step["name"].toString());
      out["found"] = x.isValid();
      if (x.isValid()) {
        v->setCurrentIndex(x);
        trigger("actionRemoveElement");
      }
    } else if (op == "tables") {
      for (int i = 1; i < 4; ++i) {
        auto* v = table(i);
        out[QString("table%1").arg(i)] = names(v);
      }
    } else if (op == "rename") {
      plan = [this, step](QWidget* w) {
        auto* d = qobject_cast<QDialog*>(w);
        auto* e = get<QLineEdit>("nameLine", d);
        out["initial"] = e->text();
        type(e, step["name"].toString());
        out["final"] = e->text();
        if (step["enter"].toBool()) {  // the default button takes the Return key
          out["ok"] = ok(d)->isEnabled();
          key(e, Qt::Key_Return, "\r");
          out["accepted"] = d->result() == QDialog::Accepted && !d->isVisible();
          if (d->isVisible()) d->reject();
        } else {
          finish(d, step["accept"].toBool(true));
        }
      };
      trigger("actionRenameModel");
    } else if (op == "save" || op == "saveas" || op == "export") {
      QString path = step["path"].toString();
      if (step.contains("path")) plan = [this, path](QWidget* w) { file(w, path); };
      trigger(op == "save" ? "actionSave" : op == "saveas" ? "actionSaveAs" : "actionExportReportAs");
    } else if (op == "undo" || op == "redo") {
      int to = step["to"].toInt(-1);
      QUndoStack* s = stack();
      for (;;) {
        if (to >= 0 && s->index() == to) break;
        if (op == "undo" ? !s->canUndo() : !s->canRedo()) break;
        op == "undo" ? s->undo() : s->redo();
        if (to < 0) break;
      }
    } else if (op == "settings") {
      plan = [this, step](QWidget* w) {
        auto* d = qobject_cast<QDialog*>(w);
        auto dump = [&] {
          QJsonObject o;
          for (const char* n : {"rareEvent", "mcub", "bdd", "zbdd", "mocus"}) o[n] = get<QRadioButton>(n, d)->isChecked();
          for (const char* n : {"primeImplicants", "probability", "importance"}) o[n] = get<QCheckBox>(n, d)->isChecked();
          o["approximationsBox"] = get<QGroupBox>("approximationsBox", d)->isChecked();
          o["missionTime"] = get<QDoubleSpinBox>("missionTime", d)->value();
          o["productOrder"] = get<QSpinBox>("productOrder", d)->value();
          return o;
        };
        out["initial"] = dump();
        for (const QJsonValue& v : step["fields"].toArray()) {
          QJsonArray a = v.toArray();
          std::string n = gh::s(a[0].toString());
          if (n == "missionTime") get<QDoubleSpinBox>("missionTime", d)->setValue(a[1].toDouble());
          else if (n == "productOrder") get<QSpinBox>("productOrder", d)->setValue(a[1].toInt());
          else if (n == "approximationsBox") get<QGroupBox>("approximationsBox", d)->setChecked(a[1].toBool());
          else if (auto* b = d->findChild<QAbstractButton*>(n.c_str())) {
            if (usable(b) && b->isChecked() != a[1].toBool()) b->click();
          } else fail("missing-widget", n);
        }
        out["final"] = dump();
        finish(d, step["accept"].toBool(true));
      };
      trigger("actionSettings");
    } else if (op == "run") {
      trigger("actionRun");
      auto* tree = get<QTreeView>("reportTree");
      QJsonArray rows;
      if (auto* m = tree->model())
        for (int i = 0; i < m->rowCount(); ++i) {
          QJsonArray r;
          QModelIndex x = m->index(i, 0);
          r.append(x.data().toString());
          for (int k = 0; k < m->rowCount(x); ++k) r.append(m->index(k, 0, x).data().toString());
          rows.append(r);
        }
      out["report"] = rows;
      if (step["tables"].toBool() && tree->model()) {  // open the result tables like a user
        auto* tabs = get<QTabWidget>("tabWidget");
        auto* m = tree->model();
        for (int i = 0; i < m->rowCount() && i < 2; ++i)
          for (int k = 0; k < m->rowCount(m->index(i, 0)); ++k) {
            int n = tabs->count();
            emit tree->activated(m->index(k, 0, m->index(i, 0)));
            if (tabs->count() > n) {
              auto* v = qobject_cast<QAbstractItemView*>(tabs->currentWidget());
              if (v) out["opened"] = out["opened"].toInt() + v->model()->rowCount();
            }
          }
      }
    } else if (op == "wait") {
      QElapsedTimer t;
      t.start();
      while (t.elapsed() < step["ms"].toInt()) QApplication::processEvents(QEventLoop::AllEvents, 5);
    } else if (op == "hasreport") {
      auto* tree = get<QTreeView>("reportTree");
      out["report"] = tree->model() != nullptr;
    } else if (op == "close") {
      win.close();
      out["visible"] = win.isVisible();
      win.show();
    } else if (op == "quit") {
      quit = win.close();
    } else if (op == "recent") {
      auto* menu = get<QMenu>("menuRecentFiles");
      QJsonArray a;
      auto* clear = get<QAction>("actionClearList");
      for (QAction* x : menu->actions()) {
        if (x->isVisible() && !x->isSeparator() && x != clear) a.append(x->text());
      }
      out["recent"] = a;
      out["menu"] = menu->isEnabled();
      QJsonArray b;
      if (auto* box = win.findChild<QGroupBox*>("recentFilesBox"))
        if (box->isVisible())
          for (auto* x : box->findChildren<QCommandLinkButton*>()) b.append(QJsonArray{x->text(), x->toolTip()});
      out["start"] = b;
      out["startpage"] = win.findChild<QGroupBox*>("recentFilesBox") != nullptr;
    } else if (op == "openrecent") {
      int n = step["n"].toInt();
      if (step["start"].toBool()) {
        auto* box = get<QGroupBox>("recentFilesBox");
        auto l = box->findChildren<QCommandLinkButton*>();
        if (n >= l.size()) fail("missing-widget", "recent file button");
        l[n]->click();
      } else {
        QList<QAction*> l;
        auto* clear = get<QAction>("actionClearList");
        for (QAction* x : get<QMenu>("menuRecentFiles")->actions())
          if (x->isVisible() && !x->isSeparator() && x != clear) l << x;
        if (n >= l.size()) fail("missing-widget", "recent file action");
        l[n]->trigger();
      }
    } else if (op == "clearrecent") {
      trigger("actionClearList");
    } else if (op == "startnew") {
      get<QCommandLinkButton>("newModelButton")->click();
    } else if (op == "preferences") {
      plan = [this, step](QWidget* w) {
        auto* d = qobject_cast<QDialog*>(w);
        auto dump = [&] {
          QJsonObject o;
          o["undo"] = get<QCheckBox>("checkUndoLimit", d)->isChecked();
          o["undoLimit"] = get<QSpinBox>("undoLimitBox", d)->value();
          o["auto"] = get<QCheckBox>("checkAutoSave", d)->isChecked();
          o["autoMinutes"] = get<QSpinBox>("autoSaveBox", d)->value();
          o["undoEnabled"] = get<QSpinBox>("undoLimitBox", d)->isEnabled();
          o["autoEnabled"] = get<QSpinBox>("autoSaveBox", d)->isEnabled();
          auto* l = get<QComboBox>("languageBox", d);
          o["language"] = l->currentText();
          QJsonArray a;
          for (int i = 0; i < l->count(); ++i) a.append(l->itemText(i));
          o["languages"] = a;
          return o;
        };
        out["initial"] = dump();
        for (const QJsonValue& v : step["fields"].toArray()) {
          QJsonArray a = v.toArray();
          std::string n = gh::s(a[0].toString());
          if (n == "language") {
            auto* l = get<QComboBox>("languageBox", d);
            l->setCurrentIndex(l->findText(a[1].toString()));
          } else if (n == "undoLimitBox" || n == "autoSaveBox") {
            auto* s = get<QSpinBox>(n.c_str(), d);
            if (usable(s)) s->setValue(a[1].toInt());
          } else {
            auto* b = get<QCheckBox>(n.c_str(), d);
            if (b->isChecked() != a[1].toBool()) b->click();
          }
        }
        out["final"] = dump();
        if (auto* b = d->findChild<QDialogButtonBox*>()) {
          if (!b->buttons().isEmpty()) b->buttons().front()->click();
        }
        if (d->isVisible()) d->reject();
      };
      trigger("actionPreferences");
    } else if (op == "elapse") {  // lets the auto-save interval pass
      QTimer* t = timer();
      out["fired"] = false;
      if (t->isActive()) {
        int interval = t->interval();
        bool fired = false;
        auto c = QObject::connect(t, &QTimer::timeout, &win, [&fired] { fired = true; });
        t->start(1);
        QElapsedTimer limit;
        limit.start();
        while (!fired && limit.elapsed() < 20000) QApplication::processEvents(QEventLoop::AllEvents, 5);
        QObject::disconnect(c);
        t->start(interval);
        out["fired"] = fired;
      }
    } else if (op == "search") {
      auto* tabs = get<QTabWidget>("tabWidget");
      if (step.contains("table")) table(step["table"].toInt());
      if (step.contains("tab")) tabs->setCurrentIndex(step["tab"].toInt());
      if (step.contains("shut")) emit tabs->tabCloseRequested(step["shut"].toInt());
      QApplication::processEvents();
      auto* bar = get<QStatusBar>("statusBar")->findChild<QLineEdit*>();
      if (!bar) fail("missing-widget", "search bar");
      auto* v = qobject_cast<QAbstractItemView*>(tabs->currentWidget());
      out["bar"] = !bar->isHidden();
      out["before"] = bar->text();
      if (v && step.contains("text")) {
        type(bar, step["text"].toString());
        key(bar, Qt::Key_Return, "\r");
      }
      out["text"] = bar->text();
      out["tabs"] = tabs->count();
      out["tab"] = tabs->currentIndex();
      out["view"] = v != nullptr;
      if (v) {
        out["rows"] = names(v);
        QJsonArray under;
        auto* m = v->model();
        for (int r = 0; r < m->rowCount(); ++r) {
          QJsonArray a;
          QModelIndex x = m->index(r, 0);
          for (int k = 0; k < m->rowCount(x); ++k) a.append(m->index(k, 0, x).data().toString());
          under.append(a);
        }
        out["under"] = under;
      }
    } else if (op == "texts") {
      QJsonObject o;
      for (QAction* x : win.findChildren<QAction*>())
        if (!x->objectName().isEmpty() && !x->objectName().startsWith("qt_")) o[x->objectName()] = x->text();
      for (QMenu* x : win.findChildren<QMenu*>())
        if (!x->objectName().isEmpty() && !x->objectName().startsWith("qt_")) o[x->objectName()] = x->title();
      out["texts"] = o;
      auto* tree = get<QTreeView>("modelTree");
      QJsonArray a;
      if (auto* m = tree->model())
        for (int i = 0; i < m->rowCount(); ++i) a.append(m->index(i, 0).data().toString());
      out["tree"] = a;
    } else {
      fail("script", gh::s(op));
    }
  }
  QTimer* timer() {
    auto l = win.findChildren<QTimer*>(QString(), Qt::FindDirectChildrenOnly);
    if (l.size() != 1) fail("missing-widget", gh::cat(l.size(), " timers"));
    return l.front();
  }
  void run(const char* script) {
    if (!app) {
      win.show();
      tick();
    }
    std::ifstream in(script);
    std::string l;
    if (app) report("start");
    while (!quit && std::getline(in, l)) {
      QJsonObject step = QJsonDocument::fromJson(QByteArray::fromStdString(l)).object();
      if (step.isEmpty()) fail("script", l);
      gh::step(l);
      out = QJsonObject();
      boxes = QJsonArray();
      try {
        perform(step);
      } catch (const std::exception& e) {  // nothing stands between this and the user
        fail("exception", gh::cat(e.what(), " after ", l));
      }
      if (plan) {
        out["unused_plan"] = true;
        plan = nullptr;
      }
      if (!quit) QApplication::processEvents();
      report(step["op"].toString());
      gh::count("steps");
    }
    if (app && !quit) gh::fail("script", "the session did not quit");
  }
  void report(const QString& op) {
    QUndoStack* s = stack();
    out["op"] = op;
    out["index"] = s->index();
    out["count"] = s->count();
    out["clean"] = s->isClean();
    out["modified"] = win.isWindowModified();
    out["title"] = win.windowTitle();
    out["boxes"] = boxes;
    if (app) {
      out["undoLimit"] = s->undoLimit();
      out["autoSave"] = timer()->isActive() ? timer()->interval() : 0;
    }
    std::printf("W %s\n", QJsonDocument(out).toJson(QJsonDocument::Compact).constData());
    std::fflush(stdout);
  }
};

}  // namespace

namespace gh {

int window(int argc, char** argv) {
  if (argc < 3) return 2;
  QApplication::setAttribute(Qt::AA_DontUseNativeDialogs);
  auto* u = new User{*new scram::gui::MainWindow};
  u->run(argv[2]);
  return 0;
}

// The real program: once its window is there and no message is open, the script takes over.
void session(const char* script) {
  static User* u = nullptr;
  if (!u) {
    for (QWidget* w : QApplication::topLevelWidgets())
      if (auto* m = qobject_cast<scram::gui::MainWindow*>(w)) {
        u = new User{*m};
        u->app = true;
        u->tick();
      }
  }
  static int idle = 0;  // the event loop of a message upon the start may be about to end
  if (!u || !u->win.isVisible() || QApplication::activeModalWidget())
    idle = 0;
  if (++idle < 4) {
    QTimer::singleShot(2, qApp, [script] { session(script); });
    return;
  }
  u->run(script);
}

}  // namespace gh
