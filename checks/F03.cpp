// @sources src/sot/flags.cpp src/feature/feature-abstract.cpp src/feature/visual-point-projecter.cpp src/feature/feature-generic.cpp src/feature/feature-point6d.cpp src/feature/feature-point6d-relative.cpp src/feature/feature-pose.cpp src/feature/feature-visual-point.cpp src/feature/feature-joint-limits.cpp src/feature/feature-posture.cpp src/feature/feature-1d.cpp src/feature/feature-vector3.cpp src/feature/feature-line-distance.cpp src/factory/pool.cpp src/exception/exception-abstract.cpp src/exception/exception-feature.cpp src/exception/exception-signal.cpp src/exception/exception-factory.cpp src/debug/debug.cpp
// @rule each case drives one feature through a random history of poses, references (set, replaced, removed, by pointer or by name), frames and "keep" commands and compares its error with independently computed documented differences, in extended precision; distinct = distinct (kind, history, values)
#include "F_common.hh"
#include <sot/core/visual-point-projecter.hh>
// angle-axis errors lose precision next to a half turn
static double tolE(const Rig &p, const Vec &e) { double a = e.size() == 6 ? e.tail(3).norm() : 0; (void)p; return (a > 2.5 ? 1e-6 : a < 1e-4 ? 1e-7 : 1e-9) * (1 + e.norm()); }
static const bool closer = (minTrace = -1 + 1e-6L, true);  // up to 1e-3 rad from the half turn
static void drive(Case &c, int kind) {
  Rng &r = c.rng;
  auto p = rig(r, kind); Inst live = p->make(); p->all(live);
  Inst spare = p->make(); p->all(spare);  // a second reference of the same kind
  int which = -1;                         // which reference is in place: -1 none, 0 live.ref, 1 spare.ref
  uint64_t hist = kind; std::string trail = p->kind();
  auto refOf = [&](int w) { return w == 0 ? live.ref.get() : spare.ref.get(); };
  // the spare reference keeps its own values: remember them in a second rig state
  int steps = r.range(3, 10);
  std::unique_ptr<Rig> other = rig(r, kind); if (live.ref) { other->nc = p->nc; }
  bool two = live.ref && kind != 0 && kind != 6;
  if (two) other->all(spare);
  if (kind == 6) which = 0;
  for (int t = 1; t <= steps; ++t) {
    int op = r.range(0, 5); hist = mix(hist ^ op);
    if (op <= 1) { for (int k = 0; k < p->inputs(); ++k) if (r.coin(.4)) { p->draw(r, k); p->feed(live, k); if (two && !(which == 1)) {} } c.ev("input"); trail += " i"; }
    if (op == 2 && p->usesRef() && kind != 6) {
      int w = r.range(-1, two ? 1 : 0);
      if (w < 0) live.f->setReference(NULL);
      else if (r.coin()) live.f->setReference(refOf(w)); else cmd(*live.f, "setReference", {Value(refOf(w)->getName())});
      which = w; trail += w < 0 ? " none" : w ? " spare" : " ref"; c.ev("reference");
    }
    if (op == 3 && two) { other = rig(r, kind); other->nc = p->nc; other->all(spare); trail += " spare-values"; c.ev("input"); }
    p->hasRef = which >= 0;
    if (p->usesRef()) {
      std::string got = cmd(*live.f, "getReference").value(); c.eq(got, which < 0 ? std::string("none") : refOf(which)->getName(), "reference-name");
    }
    // the desired values in force are those of the reference in place
    std::unique_ptr<Rig> q; Rig *m = p.get();
    Vec want;
    if (which == 1) {
      if (auto *a = dynamic_cast<Point6d *>(p.get())) { MH k = a->Md; a->Md = static_cast<Point6d &>(*other).Md; if (!a->sane()) { a->Md = k; continue; } want = a->error(); a->Md = k; }
      else if (auto *a = dynamic_cast<Relative *>(p.get())) { MH k = a->Pd, l = a->Qd; a->Pd = static_cast<Relative &>(*other).Pd; a->Qd = static_cast<Relative &>(*other).Qd; bool ok = a->sane(); want = a->error(); a->Pd = k; a->Qd = l; if (!ok) continue; }
    } else { if (!m->sane()) continue; want = m->error(); }
    if (r.coin(.2)) continue;
    c.log() << "t=" << t << " " << trail;
    closeM(c, live.f->errorSOUT(t), want, tolE(*p, want), "error");
    if (r.coin(.3)) closeM(c, live.f->errorSOUT(t), want, tolE(*p, want), "error-again");
    c.ev("evaluated"); c.state(mix(hist ^ hashM(want)));
  }
  c.sample(trail);
}
FAMILY(history, 6000, 200000) { int k = c.rng.range(0, NKIND - 1); drive(c, k); }
// zero exactly when current and desired coincide
FAMILY(coincide, 1200, 30000) {
  Rng &r = c.rng; int k = r.range(0, 5); auto p = rig(r, k); p->hasRef = p->usesRef();
  bool same = r.coin(); double off = same ? 0 : std::pow(10., r.uni(-4, 0)); MH d; d.setIdentity();
  if (!same) { Vec x = gvec(r, 6); x *= off / x.norm(); d = toMH(se3exp(L6(x.cast<R>()))); }
  if (auto *a = dynamic_cast<Generic *>(p.get())) { a->edes = a->e; if (!same) a->edes(r.range(0, a->n - 1)) += off * (1 + a->e.norm()); }
  if (auto *a = dynamic_cast<Point6d *>(p.get())) a->Md = a->M * d;
  if (auto *a = dynamic_cast<Relative *>(p.get())) { MH rel = toMH(linv(L(a->P)) * L(a->Q)); if (a->plain) a->Pd = rel * d; else a->Qd = toMH(L(a->Pd) * L(rel) * L(d)); }
  if (auto *a = dynamic_cast<Pose<sot::SE3Representation> *>(p.get())) a->Des = toMH(a->cur() * L(d));
  if (auto *a = dynamic_cast<Pose<sot::R3xSO3Representation> *>(p.get())) a->Des = toMH(a->cur() * L(d));
  if (!p->sane()) return;
  Inst i = p->make(); p->all(i); if (i.ref && p->usesRef()) i.f->setReference(i.ref.get());
  double e = Vec(i.f->errorSOUT(1)).norm();
  c.log() << p->kind() << " off " << off;
  if (same) c.check(e < 1e-7, "zero-when-equal", [&](std::ostream &o) { o << "error " << e; }); else c.check(e > .05 * off, "nonzero-when-different", [&](std::ostream &o) { o << "error " << e << " for a difference of " << off; });
  c.ev(same ? "coincide" : "differ"); c.state(mix(hashM(p->error(), 1e-9) + k));
}
// "keep": the desired value becomes the current one
FAMILY(keep, 600, 15000) {
  standin::feedThroughSignals() = false;  // the command takes the last value evaluated
  Rng &r = c.rng; int k = r.coin() ? 1 : r.range(4, 5); auto p = rig(r, k); if (!p->sane()) return;
  Inst i = p->make(); p->all(i);
  if (k == 1) { if (r.coin(.2)) { c.throws<sot::ExceptionFeature>([&] { cmd(*i.f, "keep"); }, "keep-without-reference"); c.ev("refused"); } i.f->setReference(i.ref.get()); }
  if (r.coin()) i.f->errorSOUT(1);
  if (k == 1) cmd(*i.f, "keep"); else cmd(*i.f, "keep", {Value(2)});
  closeM(c, i.f->errorSOUT(2), Vec::Zero(6), 1e-7, "kept");
  // and it stays there while the body moves on
  if (k == 1) { auto &a = static_cast<Point6d &>(*p); a.Md = a.M; a.M = pose(r); AS(sot::FeaturePoint6d, i.f).positionSIN = a.M; a.hasRef = true; if (!a.sane()) return; closeM(c, i.f->errorSOUT(3), a.error(), tolE(a, a.error()), "kept-value"); }
  if (k == 5) { auto &a = static_cast<Pose<sot::SE3Representation> &>(*p); a.Des = toMH(a.cur()); a.B = pose(r); AS(sot::FeaturePoseSE3_t, i.f).oMjb = a.B; if (!a.sane()) return; closeM(c, i.f->errorSOUT(3), a.error(), tolE(a, a.error()), "kept-value"); }
  if (k == 4) { auto &a = static_cast<Pose<sot::R3xSO3Representation> &>(*p); a.Des = toMH(a.cur()); a.B = pose(r); AS(sot::FeaturePose_t, i.f).oMjb = a.B; if (!a.sane()) return; closeM(c, i.f->errorSOUT(3), a.error(), tolE(a, a.error()), "kept-value"); }
  c.ev("kept"); c.state(hashM(p->error()));
}
// the poses' "keep" names its time: it takes the pose the bodies have at that time, however the inputs are fed
FAMILY(keep_at, 600, 15000) {
  Rng &r = c.rng; int k = r.range(4, 5); auto p = rig(r, k); Inst i = p->make(); p->all(i); int t = 0;
  for (int s = 0, S = r.range(1, 5); s < S; ++s) {
    t += r.range(1, 3); for (int a = 0; a < 4; ++a) if (!s || r.coin()) { p->draw(r, a); p->feed(i, a); }
    bool before = r.coin(.3) && p->sane(); if (before) { Vec w = p->error(); closeM(c, i.f->errorSOUT(t), w, tolE(*p, w), "before-keep"); }
    if (r.coin(.7)) {
      cmd(*i.f, "keep", {Value(t)}); if (k == 5) { auto &a = static_cast<Pose<sot::SE3Representation> &>(*p); a.Des = toMH(a.cur()); } else { auto &a = static_cast<Pose<sot::R3xSO3Representation> &>(*p); a.Des = toMH(a.cur()); }
      if (before) ++t;
      closeM(c, i.f->errorSOUT(t), Vec::Zero(6), 1e-7, "kept-at"); c.ev("kept-at");
    } else if (p->sane()) { Vec w = p->error(); if (before) ++t; closeM(c, i.f->errorSOUT(t), w, tolE(*p, w), "not-kept"); c.ev("stays"); }
    c.state(hashM(p->error()));
  }
}
// a change of frame is followed at once by everything computed from it
FAMILY(frames, 500, 12000) {
  Rng &r = c.rng; Point6d p; p.nc = r.range(1, 5); for (int k = 0; k < 5; ++k) p.draw(r, k); p.hasRef = r.coin(.8); Inst i = p.make(), tw = p.make(); p.all(i); p.all(tw); if (p.hasRef) { i.f->setReference(i.ref.get()); tw.f->setReference(tw.ref.get()); }
  for (int t = 1, T = r.range(2, 5); t <= T; ++t) {
    int seen = r.range(0, 7); if (seen & 1) i.f->errorSOUT(t); if (seen & 2) i.f->jacobianSOUT(t); if (seen & 4) i.f->errordotSOUT(t);
    p.draw(r, 4); p.feed(i, 4); Inst f = p.make(); p.all(f); if (p.hasRef) f.f->setReference(f.ref.get());
    if (p.sane()) closeM(c, i.f->errorSOUT(t), p.error(), tolE(p, p.error()), "error-follows-frame");
    std::vector<int> o{0, 1, 2}; r.shuffle(o);
    for (int k : o) { if (k == 0) closeM(c, i.f->errorSOUT(t), Vec(f.f->errorSOUT(1)), 1e-12 * (1 + p.error().norm()), "error-as-fresh"); if (k == 1) { Mat J = f.f->jacobianSOUT(1); closeM(c, i.f->jacobianSOUT(t), J, 1e-12 * (1 + J.norm()), "jacobian-follows-frame"); } if (k == 2) { Vec e = f.f->errordotSOUT(1); closeM(c, i.f->errordotSOUT(t), e, 1e-11 * (1 + e.norm()), "rate-follows-frame"); } }
    c.ev(p.frame ? "desired" : "current"); c.state(hashM(p.error()) + p.frame); if (r.coin()) { int k = r.range(0, 3); p.draw(r, k); p.feed(i, k); }
  }
}
// initSdes freezes the relative pose as the desired one; the frame command is validated
FAMILY(commands, 400, 8000) {
  Rng &r = c.rng; Relative p(false); for (int k = 0; k < 6; ++k) p.draw(r, k);
  Inst i = p.make(); p.all(i); int t = r.range(1, 5); i.f->errorSOUT(t);
  if (r.coin()) for (int k = 0; k < 2; ++k) if (r.coin(.7)) { p.draw(r, k); p.feed(i, k); c.ev("moved-before-initSdes"); }
  cmd(*i.f, "initSdes", {Value(i.ref->getName())});
  closeM(c, i.f->errorSOUT(t + 2), Vec::Zero(6), 1e-7, "initSdes");
  p.Pd = p.P; p.Qd = p.Q; p.hasRef = true; p.draw(r, 0); p.feed(i, 0);
  if (p.sane()) closeM(c, i.f->errorSOUT(t + 3), p.error(), tolE(p, p.error()), "frozen-desired");
  Point6d q; for (int k = 0; k < 5; ++k) q.draw(r, k); q.hasRef = true; Inst j = q.make(); q.all(j); j.f->setReference(j.ref.get());
  c.throws<sot::ExceptionFeature>([&] { cmd(*j.f, "frame", {Value(std::string("nowhere"))}); }, "unknown-frame");
  std::string fr = cmd(*j.f, "getFrame").value(); c.eq(fr, std::string(q.frame ? "desired" : "current"), "frame");
  if (q.sane()) closeM(c, j.f->errorSOUT(1), q.error(), tolE(q, q.error()), "frame-kept");
  c.throws<std::exception>([&] { cmd(*j.f, "setReference", {Value(uname("nobody"))}); }, "unknown-reference");
  Visual v; for (int k = 0; k < 5; ++k) v.draw(r, k); Inst w = v.make(); v.all(w); w.f->setReference(NULL);
  c.throws<sot::ExceptionFeature>([&] { w.f->errorSOUT(1); }, "visual-needs-reference");
  c.ev("commands"); c.state(hashM(p.error()));
}
// the posture feature and the projection of a 3D point in a camera
FAMILY(others, 800, 20000) {
  Rng &r = c.rng; sot::VisualPointProjecter v(uname("vpp"));
  for (int t = 1; t < 4; ++t) {
    MH M = pose(r); V3 cam(r.gauss(), r.gauss(), r.uni(.05, 4)), X = M.linear() * cam + M.translation();
    v.m_point3DSIN = Vec(X); v.m_transfoSIN = M;
    int o = r.range(0, 2);
    for (int k = 0; k < 3; ++k) switch ((o + k) % 3) {
      case 0: closeM(c, v.m_point3DgazeSOUT(t), Vec(cam), 1e-11 * (1 + X.norm()), "camera-point"); break;
      case 1: c.near(v.m_depthSOUT(t), cam(2), 1e-11 * (1 + X.norm()), "depth"); break;
      default: { Vec w(2); w << cam(0) / cam(2), cam(1) / cam(2); closeM(c, v.m_point2DSOUT(t), w, 1e-8 * (1 + w.norm()), "projection"); }
    }
    c.ev("projected"); c.state(hashM(X));
  }
}
// a reference that was replaced or removed may disappear
FAMILY(retired, 600, 15000) {
  Rng &r = c.rng; int kinds[] = {0, 1, 2, 3, 6}; int k = kinds[r.range(0, 4)]; auto p = rig(r, k); p->hasRef = true; if (!p->sane()) return;
  Inst a = p->make(), b = p->make(); p->all(a); p->all(b);
  a.f->setReference(b.ref.get()); if (r.coin()) { a.f->errorSOUT(1); a.f->jacobianSOUT(1); }
  a.f->setReference(a.ref.get()); b.ref.reset();
  closeM(c, a.f->errorSOUT(2), p->error(), tolE(*p, p->error()), "after-replacement");
  for (int t = 2; t < 5; ++t) { a.f->errorSOUT(t); a.f->jacobianSOUT(t); if (p->rate()) a.f->errordotSOUT(t); }
  closeM(c, a.f->errorSOUT(5), p->error(), tolE(*p, p->error()), "still-after-replacement");
  if (k != 6) { a.f->setReference(NULL); a.ref.reset(); p->hasRef = false; if (p->sane()) closeM(c, a.f->errorSOUT(6), p->error(), tolE(*p, p->error()), "after-removal"); for (int t = 6; t < 9; ++t) { a.f->errorSOUT(t); a.f->jacobianSOUT(t); if (p->rate()) a.f->errordotSOUT(t); } }
  c.ev("retired"); c.state(mix(hashM(p->error()) + k));
}
