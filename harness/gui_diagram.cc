// Fault tree diagrams against the specification's state of the document: what is drawn, where, and
// what a click reaches.
#include <algorithm>
#include <cmath>
#include <functional>
#include <set>

#include <QApplication>
#include <QBuffer>
#include <QFile>
#include <QFileDialog>
#include <QFontMetrics>
#include <QGraphicsItem>
#include <QGraphicsTextItem>
#include <QImage>
#include <QLineEdit>
#include <QMouseEvent>
#include <QPainter>
#include <QPainterPathStroker>
#include <QSvgGenerator>
#include <QTimer>
#include <QWheelEvent>
#include <QXmlStreamReader>

#include "diagram.h"
#include "diagramview.h"
#include "gui_diagram.h"
#include "src/event.h"

namespace gh {
namespace gm = scram::gui::model;
namespace gd = scram::gui::diagram;
namespace mef = scram::mef;

namespace {
struct Peek : gd::Event {
  static QGraphicsItem* type(gd::Event* e) { return (e->*(&Peek::getTypeGraphics))(); }
};
struct Seen {  // one drawn event
  int id;
  gd::Event* item;
  bool transfer;
  int depth;
};
// The outlines of an item with its children, relative to the position of the item in its parent.
bool hit(QGraphicsItem* top, double x, double y, double tol) {
  std::function<bool(QGraphicsItem*)> f = [&](QGraphicsItem* i) {
    QPainterPath p;
    if (auto* a = dynamic_cast<QGraphicsPathItem*>(i)) p = a->path();
    else if (auto* b = dynamic_cast<QGraphicsEllipseItem*>(i)) p.addEllipse(b->rect());
    else if (auto* c = dynamic_cast<QGraphicsPolygonItem*>(i)) p.addPolygon(c->polygon()), p.closeSubpath();
    else if (auto* d = dynamic_cast<QGraphicsRectItem*>(i)) p.addRect(d->rect());
    else if (auto* e = dynamic_cast<QGraphicsLineItem*>(i)) p.moveTo(e->line().p1()), p.lineTo(e->line().p2());
    if (!p.isEmpty()) {
      QPainterPath q = i->mapToItem(top->parentItem(), p).translated(-top->pos());
      QPainterPathStroker s;
      s.setWidth(2 * tol);
      if (s.createStroke(q).contains(QPointF(x, y))) return true;
    }
    for (auto* k : i->childItems())
      if (f(k)) return true;
    return false;
  };
  return f(top);
}
QString textOf(QGraphicsItem* i) {
  QString r;
  if (auto* t = dynamic_cast<QGraphicsTextItem*>(i)) r += t->toPlainText();
  for (auto* k : i->childItems()) r += textOf(k);
  return r;
}
bool transferOut(QGraphicsItem* type, double h) {  // the triangle beside the shape
  return hit(type, 2.5 * h, 0.0, .08 * h) && hit(type, 2.5 * h, std::sqrt(3) / 2 * h, .08 * h) && hit(type, 2 * h, 0, .08 * h);
}
const char* kNames[] = {"and", "or", "atleast", "xor", "not", "nand", "nor", "null"};
}  // namespace

struct Diagrams::Tab {
  int root = -1;
  const void* proxy = nullptr;
  bool dead = false;
  scram::gui::DiagramView view;
  gd::DiagramScene* scene = nullptr;
  std::vector<gm::Element*> activated;
  std::vector<int> zooms;
  QRegion dirty;
  std::vector<QRectF> changed;
  std::map<gd::Event*, std::pair<std::string, std::string>> shown;  // texts at the last check
  std::vector<Seen> seen;
};

Diagrams::Diagrams(gm::Model* m, Rng* r) : model(m), rng(r) {}
Diagrams::~Diagrams() = default;

void Diagrams::open(const std::map<int, DiagramNode>& st) {
  std::vector<int> v;
  for (auto& [k, e] : st)
    if (e.kind == 'G') v.push_back(k);
  if (v.empty()) return;
  auto t = std::make_unique<Tab>();
  t->root = rng->pick(v);
  t->proxy = st.at(t->root).proxy;
  step(cat("open the diagram of ", st.at(t->root).name));
  gm::Gate* gate = nullptr;
  for (auto& p : model->gates())
    if (p.get() == t->proxy) gate = p.get();
  Tab* raw = t.get();
  t->scene = new gd::DiagramScene(gate, model, &t->view);
  t->view.setScene(t->scene);
  t->view.setAlignment(Qt::AlignTop);
  t->view.resize(rng->range(300, 1200), rng->range(200, 900));
  t->view.show();
  QObject::connect(t->scene, &gd::DiagramScene::activated, [raw](gm::Element* e) { raw->activated.push_back(e); });
  QObject::connect(&t->view, &scram::gui::ZoomableView::zoomChanged, [raw](int z) { raw->zooms.push_back(z); });
  QObject::connect(t->scene, &QGraphicsScene::changed, t->scene, [raw](const QList<QRectF>& r) { raw->changed.insert(raw->changed.end(), r.begin(), r.end()); });
  QObject::connect(model, qOverload<gm::Gate*>(&gm::Model::removed), t->scene, [raw](gm::Gate* g) {
    if (g == raw->proxy) raw->dead = true;
  });
  tabs.push_back(std::move(t));
  count("diagrams");
}

void Diagrams::close() {
  if (tabs.empty()) return;
  step("close a diagram");
  tabs.erase(tabs.begin() + rng->below(tabs.size()));
}

void Diagrams::check(const std::map<int, DiagramNode>& st, const std::string& where) {
  double h = QApplication::fontMetrics().height(), w = h / 2;
  QApplication::processEvents();
  for (auto& t : tabs) {
    std::vector<QGraphicsItem*> tops;
    for (auto* i : t->scene->items())
      if (!i->parentItem()) tops.push_back(i);
    std::vector<QRectF> changed;
    changed.swap(t->changed);
    t->seen.clear();
    if (t->dead) {
      if (!tops.empty()) fail("diagram-of-removed-gate", cat(where, ": ", tops.size(), " items are left"));
      t->shown.clear();
      count("empty-diagrams-checked");
      continue;
    }
    if (tops.size() != 1) fail("diagram-roots", cat(where, ": ", tops.size(), " top items"));
    std::set<int> expanded;
    std::map<int, int> transfers;
    std::map<int, gd::Event*> gates;
    auto name = [&](int id) { return st.at(id).name; };
    std::function<void(QGraphicsItem*, int, int)> visit = [&](QGraphicsItem* it, int id, int depth) {
      auto* e = dynamic_cast<gd::Event*>(it);
      const DiagramNode& n = st.at(id);
      if (!e) fail("diagram-item", where);
      if (dynamic_cast<QObject*>(e->data()) == nullptr) fail("diagram-data", where);
      const void* p = nullptr;
      if (auto* g = dynamic_cast<gm::Gate*>(e->data())) p = g;
      else if (auto* b = dynamic_cast<gm::BasicEvent*>(e->data())) p = b;
      else if (auto* x = dynamic_cast<gm::HouseEvent*>(e->data())) p = x;
      if (p != n.proxy) fail("diagram-wrong-event", cat(where, ": in the place of ", n.name, " is ", gh::s(e->data()->id())));
      auto* asGate = dynamic_cast<gd::Gate*>(e);
      bool tr = dynamic_cast<gd::TransferIn*>(e) != nullptr;
      bool ok = n.kind == 'G' ? asGate || tr : n.kind == 'H' ? dynamic_cast<gd::HouseEvent*>(e) != nullptr : n.kind == 'U' ? dynamic_cast<gd::UndevelopedEvent*>(e) != nullptr : dynamic_cast<gd::BasicEvent*>(e) != nullptr;
      if (!ok) fail("diagram-kind", cat(where, ": ", n.name, " of kind ", n.kind));
      t->seen.push_back({id, e, tr, depth});
      QGraphicsItem* type = Peek::type(e);
      if (!type || type->parentItem() != e) fail("diagram-shape-missing", cat(where, ": ", n.name));
      if (std::fabs(type->pos().x()) > .01 || std::fabs(type->pos().y() - 6.5 * h) > .01) fail("diagram-shape-position", cat(where, ": ", n.name));
      // exactly one shape
      int loose = 0;
      for (auto* k : e->childItems())
        if (k != type && !dynamic_cast<gd::Event*>(k) && !dynamic_cast<QGraphicsLineItem*>(k)) ++loose;
      if (loose) fail("diagram-extra-shape", cat(where, ": ", n.name, " has ", loose, " more shapes"));
      auto at = [&](double x, double y) { return hit(type, x * h, y * h, .04 * h); };
      std::string sig;
      if (n.kind != 'G' || tr) {
        bool circle = at(2, 2) && at(-2, 2) && at(1.4142, 3.4142) && at(-1.4142, 3.4142);
        bool diamond = at(1, 1) && at(-1, 1) && at(1, 3) && at(-1, 3) && at(0, 4);
        bool house = at(2, 3) && at(-2, 3) && at(1, 4) && at(1, .5) && at(-1, .5);
        bool triangle = at(1, 2) && at(-1, 2) && at(1, 4) && at(-1, 4) && at(.25, .5);
        sig = cat(circle, diamond, house, triangle);
        const char* want = tr ? "0001" : n.kind == 'H' ? "0010" : n.kind == 'U' ? "0100" : "1000";
        if (sig != want) fail("diagram-event-shape", cat(where, ": ", n.name, " kind ", n.kind, " transfer ", tr, " drawn ", sig));
        for (auto* k : e->childItems())
          if (dynamic_cast<gd::Event*>(k)) fail("diagram-leaf-children", cat(where, ": ", n.name));
        if (tr) ++transfers[id];
        count("leaves-checked");
        return;
      }
      bool flat = at(.4, 3) && at(-.4, 3) && at(.8, 3), bubble = at(.5, .5) && at(-.5, .5), cross = at(.75, 1.5) && at(-.75, 1.5), line = at(0, 1.5) && at(0, .3) && at(0, 2.7);
      bool dome = at(0, 0) || (bubble && at(0, 1)), hexagon = at(1.7320, 1.5) && at(-1.7320, 1.5) && at(.5, 0) && at(.5, 3), wedge = at(.5, 2) && at(-.5, 2);
      QString text = textOf(type);
      static const std::map<int, std::string> want{{mef::kAnd, "flat dome"}, {mef::kOr, "dome"}, {mef::kNand, "flat bubble dome"}, {mef::kNor, "bubble dome"}, {mef::kXor, "cross dome"}, {mef::kNot, "flat bubble dome wedge"}, {mef::kNull, "line dome"}, {mef::kAtleast, "flat dome hexagon"}};
      sig = cat(flat && !hexagon ? "flat " : hexagon ? "flat " : "", bubble ? "bubble " : "", cross ? "cross " : "", line ? "line " : "", dome || hexagon ? "dome " : "", hexagon ? "hexagon " : "", wedge ? "wedge " : "");
      if (!sig.empty()) sig.pop_back();
      if (sig != want.at(n.conn)) fail("diagram-gate-shape", cat(where, ": ", n.name, " (", kNames[n.conn], ") drawn as ", sig));
      std::string vote = n.conn == mef::kAtleast ? cat(n.min, "/", n.args.size()) : std::string();
      if (gh::s(text) != vote) fail("diagram-vote", cat(where, ": ", n.name, " reads ", gh::s(text), " expected ", vote));
      if (!expanded.insert(id).second) fail("diagram-drawn-twice", cat(where, ": ", n.name));
      gates[id] = e;
      std::vector<gd::Event*> kids;
      std::vector<QLineF> lines;
      for (auto* k : e->childItems()) {
        if (auto* c = dynamic_cast<gd::Event*>(k)) kids.push_back(c);
        else if (auto* l = dynamic_cast<QGraphicsLineItem*>(k))
          if (k != type) lines.push_back(QLineF(l->mapToParent(l->line().p1()), l->mapToParent(l->line().p2())));
      }
      std::stable_sort(kids.begin(), kids.end(), [](auto* a, auto* b) { return a->pos().x() < b->pos().x(); });
      if (kids.size() != n.args.size()) fail("diagram-arguments", cat(where, ": ", n.name, " with ", n.args.size(), " arguments has ", kids.size(), " below"));
      auto inked = [&](QPointF a, QPointF b) {
        for (int i = 0; i <= 4; ++i) {
          QPointF p = a + (b - a) * (i / 4.0);
          bool on = false;
          for (auto& l : lines) {
            QPointF d = l.p2() - l.p1(), q = p - l.p1();
            double len2 = QPointF::dotProduct(d, d), u = len2 > 0 ? std::min(1.0, std::max(0.0, QPointF::dotProduct(q, d) / len2)) : 0;
            QPointF r = q - d * u;
            if (QPointF::dotProduct(r, r) < .003 * h * h) on = true;
          }
          if (!on) return false;
        }
        return true;
      };
      if (!inked({0, 9.5 * h}, {0, 10 * h})) fail("diagram-stem", cat(where, ": ", n.name));
      for (std::size_t i = 0; i < kids.size(); ++i) {
        QPointF c = kids[i]->pos();
        if (std::fabs(c.y() - 11 * h) > .01) fail("diagram-layer", cat(where, ": ", name(n.args[i]), " below ", n.name));
        if (!inked({c.x(), 10 * h}, c)) fail("diagram-link", cat(where, ": ", name(n.args[i]), " below ", n.name));
      }
      if (kids.size() > 1 && !inked({kids.front()->pos().x(), 10 * h}, {kids.back()->pos().x(), 10 * h})) fail("diagram-bar", cat(where, ": ", n.name));
      if (kids.size() == 1 && std::fabs(kids[0]->pos().x()) > .01) fail("diagram-link", cat(where, ": the only argument of ", n.name, " is not below it"));
      if (kids.size() > 1 && (kids.front()->pos().x() > -w || kids.back()->pos().x() < w)) fail("diagram-centre", cat(where, ": ", n.name));
      for (std::size_t i = 0; i < kids.size(); ++i) visit(kids[i], n.args[i], depth + 1);
      count("gates-checked");
    };
    visit(tops[0], t->root, 0);
    for (auto& [id, item] : gates)
      if (transferOut(Peek::type(item), h) != (transfers[id] > 0)) fail("diagram-transfer-out", cat(where, ": ", name(id), " with ", transfers[id], " transfers"));
    for (auto& [id, n] : transfers) {
      if (n && !expanded.count(id)) fail("diagram-transfer-to-nothing", cat(where, ": ", name(id)));
      count("transfers-checked", n);
    }
    // nothing overlaps
    std::vector<QRectF> boxes;
    for (auto& s : t->seen) {
      QRectF b = s.item->boundingRect();
      if (std::fabs(b.width() - 16 * w) > .01 || std::fabs(b.center().x()) > .01) fail("diagram-box", where);
      boxes.push_back(s.item->mapRectToScene(QRectF(-8 * w, 0, 16 * w, 10.5 * h)).adjusted(.1, .1, -.1, -.1));
    }
    for (std::size_t i = 0; i < boxes.size(); ++i)
      for (std::size_t j = 0; j < i; ++j)
        if (boxes[i].intersects(boxes[j])) fail("diagram-overlap", cat(where, ": ", name(t->seen[i].id), " and ", name(t->seen[j].id)));
    // an item whose texts changed without being drawn anew asked for a repaint
    std::map<gd::Event*, std::pair<std::string, std::string>> now;
    for (auto& s : t->seen) {
      now[s.item] = {st.at(s.id).name, st.at(s.id).label};
      auto it = t->shown.find(s.item);
      if (it == t->shown.end() || it->second == now[s.item]) continue;
      QRectF r = s.item->sceneBoundingRect();
      bool ok = false;
      for (auto& c : changed) ok = ok || c.intersects(r);
      if (!ok) fail("diagram-not-repainted", cat(where, ": the item of ", name(s.id), " with new texts"));
      count("repaints-checked");
    }
    t->shown.swap(now);
    count("diagrams-checked");
  }
}

void Diagrams::fiddle(const std::map<int, DiagramNode>& st, const std::string& where) {
  if (tabs.empty()) return;
  Tab& t = *rng->pick(std::vector<Tab*>{tabs[rng->below(tabs.size())].get()});
  double h = QApplication::fontMetrics().height();
  QString num;
  switch (rng->below(t.dead ? 3 : 7)) {
    case 0: {  // zoom
      int before = t.view.getZoom(), want = before;
      bool fit = false;
      t.zooms.clear();
      switch (rng->below(6)) {
        case 0: t.view.setZoom(want = rng->range(-20, 400)); break;
        case 1: t.view.zoomIn(5), want = before + 5; break;
        case 2: t.view.zoomOut(5), want = before - 5; break;
        case 3:
          if (t.dead) return;
          t.view.zoomBestFit();
          fit = true;
          break;
        default: {
          bool up = rng->chance(.5), ctrl = rng->chance(.7);
          QPointF c(t.view.viewport()->rect().center());
          QWheelEvent e(c, t.view.viewport()->mapToGlobal(c.toPoint()), QPoint(), QPoint(0, up ? 120 : -120), Qt::NoButton, ctrl ? Qt::ControlModifier : Qt::NoModifier, Qt::NoScrollPhase, false);
          QApplication::sendEvent(t.view.viewport(), &e);
          if (ctrl) want = before + (up ? 5 : -5);
        }
      }
      int z = t.view.getZoom();
      step(cat("zoom to ", z));
      want = std::max(want, 10);
      if (!fit && z != want) fail("diagram-zoom", cat(where, ": ", z, " expected ", want, " from ", before));
      if (z < 10) fail("diagram-zoom-minimum", cat(where, ": ", z));
      if (std::fabs(t.view.matrix().m11() - z * .01) > 1e-9 || std::fabs(t.view.matrix().m22() - z * .01) > 1e-9) fail("diagram-zoom-scale", cat(where, ": ", z, " scale ", t.view.matrix().m11()));
      if (z != before ? t.zooms != std::vector<int>{z} : !(t.zooms.empty() || t.zooms == std::vector<int>{z})) fail("diagram-zoom-signal", cat(where, ": ", t.zooms.size(), " notifications"));
      if (fit && z > 10) {
        QRectF r = t.scene->sceneRect();
        double a = r.width() * z * .01, b = r.height() * z * .01, W = t.view.width(), H = t.view.height();
        if (a > W * 1.02 + 4 || b > H * 1.02 + 4 || (a < W * .9 - 12 && b < H * .9 - 12)) fail("diagram-best-fit", cat(where, ": ", a, "x", b, " in ", W, "x", H));
      }
      count("zooms");
      break;
    }
    case 1: {
      QImage img(400, 300, QImage::Format_RGB32);
      img.fill(Qt::white);
      QPainter p(&img);
      t.scene->render(&p);
      t.view.grab();
      count("paints");
      break;
    }
    case 2:
    case 3: {  // export, read back the texts
      if (t.dead) return;
      QString path = QString::fromStdString(cat("export", rng->below(1000), ".svg"));
      QFile::remove(path);
      bool cancel = rng->chance(.15), asked = false;
      QTimer timer;
      QObject::connect(&timer, &QTimer::timeout, [&] {
        auto* d = qobject_cast<QFileDialog*>(QApplication::activeModalWidget());
        if (!d) return;
        asked = true;
        if (cancel) return d->reject();
        d->findChild<QLineEdit*>("fileNameEdit")->setText(QFileInfo(path).absoluteFilePath());
        QMetaObject::invokeMethod(d, "accept");
      });
      timer.start(5);
      t.view.exportAs();
      timer.stop();
      step(cat("export ", gh::s(path), cancel ? " cancelled" : ""));
      if (!asked) fail("diagram-export-unasked", where);
      if (cancel) {
        if (QFile::exists(path)) fail("diagram-export-cancelled", where);
        break;
      }
      QFile f(path);
      if (!f.open(QIODevice::ReadOnly)) fail("diagram-export-missing", where);
      QXmlStreamReader x(&f);
      std::multiset<std::string> texts;
      std::string all;
      while (!x.atEnd()) {
        x.readNext();
        if (x.isStartElement() && x.name() == QLatin1String("text")) {
          std::string v = gh::s(x.readElementText().simplified());
          texts.insert(v);
          all += v + "\n";
        }
      }
      if (x.hasError()) fail("diagram-export-malformed", cat(where, ": ", gh::s(x.errorString())));
      std::map<std::string, int> ids;
      for (auto& s : t.seen) ++ids[st.at(s.id).name];
      for (auto& [id, n] : ids) {
        if (QString::fromStdString(id).size() > 4) continue;
        if (static_cast<int>(texts.count(id)) < n) fail("diagram-export-id", cat(where, ": ", texts.count(id), " of ", n, " boxes show ", id));
        count("exported-ids", n);
      }
      for (auto& s : t.seen) {
        QStringList words = QString::fromStdString(st.at(s.id).label).simplified().split(' ', QString::SkipEmptyParts);
        if (words.empty() || words[0].size() > 8) continue;
        if (all.find(gh::s(words[0])) == std::string::npos) fail("diagram-export-label", cat(where, ": ", st.at(s.id).label));
        count("exported-labels");
      }
      f.remove();
      count("exports");
      break;
    }
    default: {  // double click an event
      if (t.seen.empty()) return;
      const Seen s = rng->pick(t.seen);
      t.view.setZoom(rng->range(60, 140));
      double w = h / 2;
      QPointF local = rng->chance(.5) ? QPointF(rng->unit() * 14 * w - 7 * w, rng->unit() * 3.6 * h + .2 * h) : QPointF(rng->unit() * 8 * w - 4 * w, 5.2 * h + rng->unit() * .6 * h);
      t.view.centerOn(s.item->mapToScene(local));
      QPoint at = t.view.mapFromScene(s.item->mapToScene(local));
      if (!t.view.viewport()->rect().contains(at)) return;
      t.activated.clear();
      QPoint global = t.view.viewport()->mapToGlobal(at);
      step(cat("double click ", st.at(s.id).name));
      auto send = [&](QEvent::Type k, Qt::MouseButtons b) {
        QMouseEvent e(k, at, global, Qt::LeftButton, b, Qt::NoModifier);
        QApplication::sendEvent(t.view.viewport(), &e);
      };
      send(QEvent::MouseButtonPress, Qt::LeftButton);
      send(QEvent::MouseButtonRelease, Qt::NoButton);
      if (!t.activated.empty()) fail("diagram-activated-by-click", where);
      send(QEvent::MouseButtonDblClick, Qt::LeftButton);
      send(QEvent::MouseButtonRelease, Qt::NoButton);
      if (t.activated.size() != 1) fail("diagram-activations", cat(where, ": ", t.activated.size(), " upon a double click on ", st.at(s.id).name));
      if (gh::s(t.activated[0]->id()) != st.at(s.id).name || t.activated[0] != s.item->data()) fail("diagram-activates-another", cat(where, ": ", gh::s(t.activated[0]->id()), " instead of ", st.at(s.id).name));
      count("activations");
    }
  }
}

}  // namespace gh
