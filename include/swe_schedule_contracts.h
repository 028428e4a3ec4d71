namespace sched {
struct Setup {
    Elem a, b; std::vector<std::unique_ptr<Unit<Own>>> units; Disc whole; ESSPRKStepper s; Two t; int global = 0;
    Setup(bool any, bool dist, int nstages, int order) : s(stepper(nstages, order)) {
        k() = new K(any);
        SWE::PostProcessing::wetting_drying = vc_choose("wetting and drying", 0, 1); SWE::PostProcessing::slope_limiting = vc_choose("slope limiting", 0, 1);
        if (dist) {
            for (int j = 0; j < 2; ++j) units.emplace_back(new Unit<Own>());
            for (int j = 0; j < 2; ++j) {
                auto& u = *units[j]; Elem& e = j ? b : a; auto& d = u.discretization; d.mesh.elements.push_back(&e);
                add(d, e); auto* x = new DBound(e.data, j == 0); d.mesh.dbounds.push_back(x);
#ifdef SCHEDULE_HDG
                d.mesh_skeleton.dists.push_back(new EdgeDist{*x, SWE::EHDG::CommTypes::bound_state});
#endif
                u.communicator.b = x; u.communicator.partner = &units[1 - j]->communicator;
            }
        } else {
            whole.mesh.elements = {&a, &b}; auto* i = new Iface{a.data, b.data}; whole.mesh.interfaces.push_back(i); add(whole, a); add(whole, b);
#ifdef SCHEDULE_HDG
            whole.mesh_skeleton.ints.push_back(new EdgeInt{*i});
#endif
        }
    }
    void add(Disc& d, Elem& e) {
        auto* x = new Bound{e.data}; d.mesh.boundaries.push_back(x);
#ifdef SCHEDULE_HDG
        d.mesh_skeleton.bounds.push_back(new EdgeBound{*x});
#endif
    }
    void spec(int stage, int n) {  // one stage of the method
        double dt = s.GetDT();
        for (int j = 0; j < 2; ++j) { t.sol[stage][j] = t.L(stage, j, HDG); }
        for (int j = 0; j < 2; ++j) {
            Q3 v = Q3::Zero(3, 1);
            for (int r = 0; r <= stage; ++r) v += s.ark[stage][r] * t.q[r][j] + dt * s.brk[stage][r] * t.sol[r][j];
            t.q[stage + 1][j] = v;
            if (stage + 1 == n) { Q3 o = t.q[0][j]; t.q[0][j] = t.q[n][j]; t.q[n][j] = o; }
        }
        int now = (stage + 1) % n;
        if (SWE::PostProcessing::wetting_drying) for (int j = 0; j < 2; ++j) wd(t.q[now][j]);
        if (SWE::PostProcessing::slope_limiting) t.limit(now);
    }
    void compare(int stage) { for (int j = 0; j < 2; ++j) for (int c = 0; c < 3; ++c) ENSURES_EQ("state", (j ? b : a).data.state[stage].q(c, 0), t.q[stage][j](c, 0)); }
};
void stage(bool dist) {
    Setup u(true, dist, 2, 2); uint at = (uint)vc_choose("stage", 0, 1); for (uint i = 0; i < at; ++i) ++u.s;
    uint stamp = u.s.GetTimestamp();
    u.t.of(&u.a, &u.b); Q3 keep[2] = {u.a.data.state[0].q, u.b.data.state[0].q};
    if (dist) P::stage_ompi(u.units, u.global, u.s, 0, 2); else P::stage_serial(u.whole, u.global, u.s);
    u.spec(at, 2); u.compare((at + 1) % 2);
    ENSURES_INT("one increment", u.s.GetTimestamp(), stamp + 1); ENSURES_INT("stage", u.s.GetStage(), (at + 1) % 2);
    if (at == 0) for (int j = 0; j < 2; ++j) for (int c = 0; c < 3; ++c) ENSURES_EQ("start of the step kept", (j ? u.b : u.a).data.state[0].q(c, 0), keep[j](c, 0));
    if (dist) for (auto& x : u.units) x->communicator.idle();
}
void step(bool dist) {
    Setup u(false, dist, 2, 2); bool parse = vc_choose("input", 0, 1), write = vc_choose("output", 0, 1); double f[2] = {REAL("forcing 0"), REAL("forcing 1")};
    Parser p; Writer_ w; p.on = parse; w.on = write; p.force = {f[0], f[1]};
    for (auto& x : u.units) { x->parser = p; x->writer.on = write; }
    u.t.of(&u.a, &u.b); uint before = u.s.GetStep();
    if (dist) P::step_ompi(u.units, u.global, u.s, 0, 2); else P::step_serial(u.whole, u.global, u.s, w, p);
    for (int i = 0; i < 2; ++i) { if (parse) u.t.forcing[0] = u.t.forcing[1] = f[i]; u.spec(i, 2); }
    u.compare(0); ENSURES_INT("one step", u.s.GetStep(), before + 1); ENSURES_INT("stage", u.s.GetStage(), 0);
    auto out = [&](Parser& p, Writer_& w, int j, int n) {
        ENSURES_INT("input read once per stage", p.calls, parse ? 2 : 0); ENSURES_INT("output written once per step", w.calls, write ? 1 : 0);
        if (write) for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) ENSURES_EQ("output of the new state", w.seen[i](c, 0), u.t.q[0][j + i](c, 0));
    };
    if (dist) { for (int j = 0; j < 2; ++j) { out(u.units[j]->parser, u.units[j]->writer, j, 1); u.units[j]->communicator.idle(); } } else out(p, w, 0, 2);
}
}
