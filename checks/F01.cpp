// @sources src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/feature-generic.cpp src/feature/feature-point6d.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-pose.cpp src/feature/feature-visual-point.cpp src/feature/feature-joint-limits.cpp src/feature/feature-posture.cpp src/feature/feature-1d.cpp src/feature/feature-vector3.cpp src/feature/feature-line-distance.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives one feature of every kind through a random history of selections, references and inputs and compares each output with the selected rows of a fresh, fully selected twin given the same inputs; distinct = distinct (kind, history, values)
#include "F_common.hh"
static Mat rows(const Mat &m, const std::vector<bool> &s) { Mat o(0, m.cols()); for (int i = 0; i < m.rows(); ++i) if (s[i]) { Mat k(o.rows() + 1, m.cols()); k << o, m.row(i); o = k; } return o; }
static void drive(Case &c, int kind) {
  Rng &r = c.rng;
  auto p = rig(r, kind); Inst live = p->make(); p->all(live);
  std::vector<bool> sel(p->full(), true);
  uint64_t hist = kind; std::string trail = p->kind();
  int steps = r.range(3, 9);
  for (int t = 1; t <= steps; ++t) {
    // what changes at this step (possibly nothing)
    int what = t == 1 ? 7 : r.range(0, 7);
    hist = mix(hist ^ what);
    if ((what & 1) && p->selectable()) {
      int mode = r.range(0, 9);
      for (size_t i = 0; i < sel.size(); ++i) sel[i] = mode == 0 ? false : mode == 1 ? true : r.coin();
      if (mode == 0 && r.coin()) live.f->selectionSIN = sot::Flags(false);
      else if (mode == 1 && r.coin()) live.f->selectionSIN = sot::Flags(true);
      else { std::vector<bool> b = sel; for (int k = r.range(0, 3); k > 0; --k) b.push_back(r.coin()); live.f->selectionSIN = sot::Flags(b); }
      c.ev("select"); trail += " s";
    } else if ((what & 1) && r.coin()) { live.f->selectionSIN = sot::Flags(r.coin()); c.ev("select-ignored"); }
    if (what & 2) for (int k = 0; k < p->inputs(); ++k) if (r.coin(.35)) { p->draw(r, k); p->feed(live, k); c.ev("input"); trail += " i" + std::to_string(k); }
    if ((what & 4) && p->usesRef() && live.ref && kind != 6) { p->hasRef = r.coin(.7); live.f->setReference(p->hasRef ? live.ref.get() : NULL); c.ev("reference"); trail += " r"; }
    if (r.coin(.2)) continue;  // changes may pile up between evaluations
    Inst twin = p->make(); p->all(twin);
    if (live.ref) twin.f->setReference(p->hasRef ? twin.ref.get() : NULL);
    c.log() << p->kind() << " t=" << t << trail;
    std::vector<int> order{0, 1, 2, 3}; r.shuffle(order);
    int n = 0; for (bool b : sel) n += b;
    for (int o : order) switch (o) {
      case 0: c.eq((int)live.f->dimensionSOUT(t), n, "dimension"); break;
      case 1: closeM(c, live.f->errorSOUT(t), rows(twin.f->errorSOUT(1), sel), 1e-12 * (1 + twin.f->errorSOUT(1).norm()), "error-rows"); break;
      case 2: closeM(c, live.f->jacobianSOUT(t), rows(twin.f->jacobianSOUT(1), sel), 1e-12 * (1 + twin.f->jacobianSOUT(1).norm()), "jacobian-rows"); break;
      default: if (p->rate()) closeM(c, live.f->errordotSOUT(t), rows(twin.f->errordotSOUT(1), sel), 1e-12 * (1 + twin.f->errordotSOUT(1).norm()), "error-rate-rows");
    }
    c.eq((int)twin.f->dimensionSOUT(1), p->full(), "full-dimension");
    c.ev("evaluated"); c.ev("rows", n); c.state(mix(hist ^ hashM(twin.f->errorSOUT(1))));
  }
  c.sample(trail);
}
FAMILY(selected, 6600, 200000) { int k = c.rng.range(0, NKIND - 1); drive(c, k); }
// a posture chooses its own degrees of freedom, one by one
FAMILY(posture, 1500, 40000) {
  Rng &r = c.rng; int n = r.range(1, 12), t = 0;
  sot::FeaturePosture f(uname("posture"));
  auto &st = in<Vec>(f, "state"), &po = in<Vec>(f, "posture"), &pd = in<Vec>(f, "postureDot");
  Vec s = gvec(r, n), q = gvec(r, n), d = gvec(r, n); st.setConstant(s); po.setConstant(q); pd = d;
  std::vector<bool> act(n, false); bool chosen = false; uint64_t hist = n;
  for (int k = r.range(2, 12); k > 0; --k) {
    int op = r.range(0, 4); hist = mix(hist ^ op);
    if (op <= 1) {
      int i = r.range(0, n - 1); bool on = r.coin(.65); act[i] = on; chosen = true;
      cmd(f, "selectDof", {Value((unsigned)i), Value(on)}); c.ev("dof");
    } else if (op == 2) { s = gvec(r, n); st.setConstant(s); c.ev("input"); }
    else if (op == 3) { if (r.coin()) { q = gvec(r, n); po.setConstant(q); } else { d = gvec(r, n); pd = d; } c.ev("input"); }
    else if (r.coin(.2)) {  // another robot: the selection starts over with the next choice
      n = r.range(1, 12); s = gvec(r, n); q = gvec(r, n); d = gvec(r, n); st.setConstant(s); po.setConstant(q); pd = d; bool same = (int)act.size() == n; if (!same) act.assign(n, false);
      int i = r.range(0, n - 1); bool on = r.coin(.65); act[i] = on; chosen = true; cmd(f, "selectDof", {Value((unsigned)i), Value(on)}); c.ev("resized");
    } else if (r.coin(.3)) { c.throws<std::exception>([&] { cmd(f, "selectDof", {Value((unsigned)(n + r.range(0, 3))), Value(true)}); }, "dof-out-of-range"); if (!chosen) chosen = true; }
    if (!chosen) continue;
    if (op > 1 || !t || r.coin()) ++t;  // a choice shows at once, even at a time already evaluated
    else c.ev("same-time");
    if (r.coin()) f.selectionSIN(t);  // somebody looks at the selection, which a posture does not use
    int m = 0; for (bool b : act) m += b;
    Vec e = s - q, ed = -d; Mat I = Mat::Identity(n, n);
    c.eq((int)f.dimensionSOUT(t), m, "posture-dimension");
    closeM(c, f.errorSOUT(t), rows(e, act), 1e-13, "posture-error");
    closeM(c, f.errordotSOUT(t), rows(ed, act), 1e-13, "posture-rate");
    Mat want = rows(I, act);
    if (m) closeM(c, f.jacobianSOUT(t), want, 1e-13, "posture-jacobian");
    c.ev("evaluated"); c.state(mix(hist ^ hashM(e)));
  }
}
// the actuated joints of joint limits are those after the free-flyer
FAMILY(actuated, 300, 4000) {
  Rng &r = c.rng; Limits p(r); p.n = p.nc = r.range(7, 14);
  for (int k = 0; k < 3; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); if (r.coin()) i.f->errorSOUT(1);
  cmd(*i.f, "actuate");
  c.eq((int)i.f->dimensionSOUT(2), p.n - 6, "actuated-dimension");
  closeM(c, i.f->errorSOUT(2), p.error().tail(p.n - 6), 1e-12 * (1 + p.error().norm()), "actuated-error");
  c.eq((int)i.f->jacobianSOUT(2).rows(), p.n - 6, "actuated-jacobian");
  c.ev("actuated"); c.state(hashM(p.error()));
}
// sizes that do not fit are refused instead of read out of bounds
FAMILY(refused, 300, 4000) {
  Rng &r = c.rng; Generic p; p.n = r.range(2, 6); for (int k = 0; k < 4; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); i.f->setReference(i.ref.get());
  int w = r.range(0, 2), m = r.range(0, p.n - 1);
  auto &f = AS(sot::FeatureGeneric, i.f), &g = AS(sot::FeatureGeneric, i.ref);
  if (w == 0) { g.errorSIN = gvec(r, m); c.throws<sot::ExceptionFeature>([&] { f.errorSOUT(1); }, "short-reference"); }
  if (w == 1) { g.errordotSIN = gvec(r, m); c.throws<sot::ExceptionFeature>([&] { f.errordotSOUT(1); }, "short-rate"); }
  if (w == 2) { f.jacobianSIN = gmat(r, m, 3); c.throws<sot::ExceptionFeature>([&] { f.jacobianSOUT(1); }, "short-jacobian"); }
  c.ev("refused"); c.state(hashM(p.e) + w);
}
// a generic feature takes the size of its inputs, which may change; references may be longer than needed
FAMILY(resized, 900, 20000) {
  Rng &r = c.rng; Generic p; Inst i = p.make(); uint64_t h = 0;
  for (int t = 1, m = r.range(2, 6); t <= m; ++t) {
    p.n = r.range(1, 6); int extra = r.coin() ? r.range(0, 4) : 0; for (int k = 0; k < 4; ++k) p.draw(r, k);
    p.edes = gvec(r, p.n + extra); p.edot = gvec(r, p.n + extra); p.all(i);
    if (t == 1 || r.coin(.3)) { p.hasRef = r.coin(.7); i.f->setReference(p.hasRef ? i.ref.get() : NULL); }
    std::vector<bool> sel(p.n); for (int k = 0; k < p.n; ++k) sel[k] = r.coin(.6);
    std::vector<bool> fl = sel; for (int k = 0; k < 5; ++k) fl.push_back(r.coin());
    bool whole = r.coin(.3); if (whole) { sel.assign(p.n, true); i.f->selectionSIN = sot::Flags(true); } else i.f->selectionSIN = sot::Flags(fl);
    int n = 0; for (bool b : sel) n += b;
    c.log() << "t=" << t << " size " << p.n << " extra " << extra << " selected " << n << " ref " << p.hasRef;
    std::vector<int> order{0, 1, 2, 3}; r.shuffle(order);
    for (int o : order) switch (o) {
      case 0: c.eq((int)i.f->dimensionSOUT(t), n, "resized-dimension"); break;
      case 1: closeM(c, i.f->errorSOUT(t), rows(p.hasRef ? Vec(p.e - p.edes.head(p.n)) : p.e, sel), 1e-12, "resized-error"); break;
      case 2: closeM(c, i.f->jacobianSOUT(t), rows(p.J, sel), 1e-12, "resized-jacobian"); break;
      default: closeM(c, i.f->errordotSOUT(t), rows(p.hasRef ? Vec(-p.edot.head(p.n)) : Vec(Vec::Zero(p.n)), sel), 1e-12, "resized-rate");
    }
    c.ev("resized"); h = mix(h ^ hashM(p.e)); c.state(h);
  }
}
