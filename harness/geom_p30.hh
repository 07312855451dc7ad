// P30: rotations, quaternions, pinhole cameras, relative orientation, plane transforms
static const double ANG[] = {0, 0.3, -0.7, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 2.5, -3.1, 6.5, 1e-3, M_PI / 4, 100, 1e-7, -1e-9, M_PI - 1e-4, M_PI - 1e-7, -M_PI + 1e-5, 2 * M_PI, M_PI / 2 - 1e-6};
static M3 rx(double a) { return {1, 0, 0, 0, std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a)}; }
static M3 ry(double a) { return {std::cos(a), 0, -std::sin(a), 0, 1, 0, std::sin(a), 0, std::cos(a)}; }
static M3 rz(double a) { return {std::cos(a), std::sin(a), 0, -std::sin(a), std::cos(a), 0, 0, 0, 1}; }
static bool is_rotation(const double *R, double tol = 1e-9) { M3 t = tr3(R), p = mul3(t.data(), R); static const double I[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; return eqm(p.data(), I, tol) && std::fabs((double)det3(R) - 1) < tol; }
static M3 rodrigues(const double *ax, double th) { double n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), x = ax[0] / n, y = ax[1] / n, z = ax[2] / n; M3 K = {0, z, -y, -z, 0, x, y, -x, 0}, K2 = mul3(K.data(), K.data()), R; for (int i = 0; i < 9; ++i) R[i] = (i % 4 == 0) + std::sin(th) * K[i] + (1 - std::cos(th)) * K2[i]; return R; }
static M3 qmat(const double *q) { // from the definition v -> q v q*
    M3 R; for (int j = 0; j < 3; ++j) { double v[4] = {0, 0.0 + (j == 0), 0.0 + (j == 1), 0.0 + (j == 2)}, c[4] = {q[0], -q[1], -q[2], -q[3]}; auto mul = [](const double *a, const double *b, double *o) { o[0] = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; o[1] = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2]; o[2] = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1]; o[3] = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]; };
        double t[4], u[4]; mul(q, v, t); mul(t, c, u); R[3 * j] = u[1]; R[3 * j + 1] = u[2]; R[3 * j + 2] = u[3]; } return R;
}
static void p30() {
    for (double a : ANG) for (double b : ANG) for (double c : ANG) if (begin("euler-angles")) {
        describe([&] { return fmt("angles %g %g %g", a, b, c); });
        M3 X = rx(a), Y = ry(b), Z = rz(c), zy = mul3(Z.data(), Y.data()), zyx = mul3(zy.data(), X.data()), xy = mul3(X.data(), Y.data()), xyz = mul3(xy.data(), Z.data()); double R[9], Q[9]; nx_rotation_3d_RzRyRx(R, a, b, c); nx_rotation_3d_RxRyRz(Q, a, b, c); step(2);
        if (!eqm(R, zyx.data(), 1e-12)) fail("RzRyRx is%s instead of%s", show3(R).c_str(), show3(zyx.data()).c_str()); if (!eqm(Q, xyz.data(), 1e-12)) fail("RxRyRz is%s instead of%s", show3(Q).c_str(), show3(xyz.data()).c_str());
        for (double *r : {R, Q}) { M3 t = tr3(r); double q[4]; nx_quaternion_from_R(q, r); M3 back = qmat(q); if (!eqm(back.data(), r, 1e-9)) fail("the quaternion of a rotation turns by another rotation:%s instead of%s", show3(back.data()).c_str(), show3(r).c_str()); nx_rotation_3d_invert(r); if (!eqm(r, t.data(), 0)) fail("inversion is not the transpose"); }
        state(hash_bytes(R, sizeof R));
    }
    const int B = pick(2, 3);
    for (int x = -B; x <= B; ++x) for (int y = -B; y <= B; ++y) for (int z = -B; z <= B; ++z) for (double th : ANG) if (x || y || z) if (begin("axis-angle")) {
        describe([&] { return fmt("axis %d %d %d angle %g", x, y, z, th); });
        for (double k : {1.0, 0.01, 50.0, 1e-9, 1e-100, 1e60}) { double ax[3] = {x * k, y * k, z * k}, a0[3] = {ax[0], ax[1], ax[2]}; M3 e = rodrigues(ax, th); double R[9], q[4]; nx_rotation_3d_axis_angle(R, ax, th); nx_quaternion_from_axis_angle(q, ax, th); step(2); M3 m = qmat(q);
            if (!eqm(R, e.data(), 1e-10)) fail("the matrix is%s instead of%s", show3(R).c_str(), show3(e.data()).c_str()); if (!eqm(m.data(), e.data(), 1e-10) || std::fabs(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] - 1) > 1e-12) fail("the quaternion turns by%s instead of%s", show3(m.data()).c_str(), show3(e.data()).c_str()); if (memcmp(ax, a0, sizeof ax)) fail("the axis is modified"); for (int v = 0; v < 3; ++v) { double w[3] = {v == 0 ? 3.0 : -1, v == 1 ? 7.0 : 2, v == 2 ? 5.0 : 0.5}, o[3]; for (int c = 0; c < 3; ++c) o[c] = e[c] * w[0] + e[3 + c] * w[1] + e[6 + c] * w[2]; nx_quaternion_rotate(q, w); if (!close(w[0], o[0], 1e-10) || !close(w[1], o[1], 1e-10) || !close(w[2], o[2], 1e-10)) { fail("a vector is turned to (%g,%g,%g) instead of (%g,%g,%g)", w[0], w[1], w[2], o[0], o[1], o[2]); break; } } state(hash_bytes(R, sizeof R)); }
        double q[4]; nx_quaternion_from_axis_angle(q, NULL, 0.0); if (q[0] != 1 || q[1] || q[2] || q[3]) fail("no turn is not the unit quaternion");
    }
    // unit quaternions from all small integer ones
    std::vector<std::array<double, 4>> Q; const int C = pick(2, 3); for (int a = -C; a <= C; ++a) for (int b = -C; b <= C; ++b) for (int c = -C; c <= C; ++c) for (int d = -C; d <= C; ++d) if (a || b || c || d) Q.push_back({(double)a, (double)b, (double)c, (double)d});
    for (size_t i = 0; i < Q.size(); ++i) if (begin("quaternions")) {
        describe([&] { return fmt("quaternion %g %g %g %g", Q[i][0], Q[i][1], Q[i][2], Q[i][3]); });
        double q[7] = {Q[i][0], Q[i][1], Q[i][2], Q[i][3], 7, 8, 9}, n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]); double r = nx_quaternion_to_unit(q); step(4); if (!close(r, n, 1e-12)) fail("the norm is %g instead of %g", r, n); for (int k = 0; k < 4; ++k) if (!close(q[k], Q[i][k] / n, 1e-12)) fail("normalization is wrong");
        for (double sc : {1e-12, 1e-100, 1e50}) { double u[4]; for (int k = 0; k < 4; ++k) u[k] = Q[i][k] * sc; r = nx_quaternion_to_unit(u); if (!(std::fabs(r - n * sc) <= 1e-12 * n * sc)) fail("the norm of a quaternion scaled by %g is %g", sc, r); for (int k = 0; k < 4; ++k) if (!close(u[k], Q[i][k] / n, 1e-12)) fail("normalization of a quaternion scaled by %g is wrong", sc); }
        M3 e = qmat(q); double R[9], t[3], g[4]; nx_quaternion_to_Rt(q, R, t); if (!eqm(R, e.data(), 1e-12) || t[0] != 7 || t[1] != 8 || t[2] != 9) fail("the matrix is%s instead of%s", show3(R).c_str(), show3(e.data()).c_str()); double R2[9]; nx_quaternion_to_R(q, R2); if (memcmp(R, R2, sizeof R)) fail("to_R and to_Rt differ"); if (!is_rotation(R)) fail("not a rotation");
        nx_quaternion_from_R(g, R); bool p = true, m = true; for (int k = 0; k < 4; ++k) { if (!(std::fabs(g[k] - q[k]) < 1e-7)) p = false; if (!(std::fabs(g[k] + q[k]) < 1e-7)) m = false; } if (!p && !m) fail("the quaternion of the matrix is %g %g %g %g instead of +-(%g %g %g %g)", g[0], g[1], g[2], g[3], q[0], q[1], q[2], q[3]);
        for (int v = 0; v < 27; ++v) { double w[3] = {v % 3 - 1.0, v / 3 % 3 * 2.0, v / 9 * -3.0}, o[3]; for (int k = 0; k < 3; ++k) o[k] = e[k] * w[0] + e[3 + k] * w[1] + e[6 + k] * w[2]; nx_quaternion_rotate(q, w); if (!close(w[0], o[0], 1e-12) || !close(w[1], o[1], 1e-12) || !close(w[2], o[2], 1e-12)) { fail("vector %d is turned to (%g,%g,%g) instead of (%g,%g,%g)", v, w[0], w[1], w[2], o[0], o[1], o[2]); break; } }
        for (size_t j = 0; j < Q.size(); ++j) { const double *a = Q[i].data(), *b = Q[j].data(); double pr[4], sm[4], ml[4], ad[4], cj[4], sc[4]; nx_quaternion_prod(pr, a, b); nx_quaternion_sum(sm, a, b); memcpy(ml, a, 32); nx_quaternion_mul(ml, b); memcpy(ad, a, 32); nx_quaternion_add(ad, b); memcpy(cj, a, 32); nx_quaternion_conj(cj); memcpy(sc, a, 32); nx_quaternion_scale(sc, b[0]); step();
            double E[4] = {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]}; bool ok = nx_quaternion_dot(a, b) == a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; for (int k = 0; k < 4; ++k) ok = ok && pr[k] == E[k] && ml[k] == E[k] && sm[k] == a[k] + b[k] && ad[k] == a[k] + b[k] && cj[k] == (k ? -a[k] : a[k]) && sc[k] == a[k] * b[0];
            double sq[4]; memcpy(sq, b, 32); nx_quaternion_mul(sq, sq); ok = ok && sq[0] == b[0] * b[0] - b[1] * b[1] - b[2] * b[2] - b[3] * b[3] && sq[1] == 2 * b[0] * b[1] && sq[2] == 2 * b[0] * b[2] && sq[3] == 2 * b[0] * b[3];
            if (!ok) { fail("quaternion arithmetic with %g %g %g %g is wrong", b[0], b[1], b[2], b[3]); break; } }
        state(hash_bytes(q, 32));
    }
    // cameras
    std::vector<Pose> P = poses(true); static const double KS[][5] = {{1, 1, 0, 0, 0}, {500, 480, 320, 240, 0}, {300, 300, 100, 50, 2.5}};
    for (size_t pi = 0; pi < P.size(); ++pi) for (int ki = 0; ki < 3; ++ki) for (int nul = 0; nul < 8; ++nul) if (begin("projection")) {
        describe([&] { return fmt("pose %d calibration %d missing %d", (int)pi, ki, nul); });
        double K[9] = {KS[ki][0], 0, 0, KS[ki][4], KS[ki][1], 0, KS[ki][2], KS[ki][3], 1}; const double I[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, Z[3] = {0, 0, 0}; const double *k = nul & 1 ? I : K, *R = nul & 2 ? I : P[pi].R.data(), *t = nul & 4 ? Z : P[pi].t; double M[12]; nx_pinhole_projection_from_krt(M, nul & 1 ? NULL : K, nul & 2 ? NULL : P[pi].R.data(), nul & 4 ? NULL : P[pi].t); step();
        M3 e = mul3(k, R); double et[3]; for (int i = 0; i < 3; ++i) et[i] = k[i] * t[0] + k[3 + i] * t[1] + k[6 + i] * t[2]; if (!eqm(M, e.data(), 1e-9) || !eqm(M + 9, et, 1e-9, 3)) { fail("the projection matrix is wrong"); continue; }
        for (double z : {-50.0, -5.0, -1e-2, -1e-4, 1e-4, 1e-2, 0.3, 1e3, 1e6}) for (double x0 : {0.0, 0.25, -1.5}) { float X[3] = {(float)x0, (float)(0.5 - x0), (float)z}, x[2] = {-77, -77}; LD p[3]; for (int c = 0; c < 3; ++c) p[c] = (LD)M[c] * X[0] + (LD)M[3 + c] * X[1] + (LD)M[6 + c] * X[2] + M[9 + c]; if (fabsl(p[2]) < 1e-6) continue; double s = nx_pinhole_project(M, 1, X, x); step(); if (!close(s, fabsl(p[2]), 1e-6) || !close(x[0], p[0] / p[2], 1e-4) || !close(x[1], p[1] / p[2], 1e-4)) { fail("(%g,%g,%g) is projected to (%g,%g) instead of (%Lg,%Lg)", X[0], X[1], X[2], x[0], x[1], p[0] / p[2], p[1] / p[2]); break; } }
        for (int n = 1; n <= 20; ++n) { std::vector<float> X(3 * n), H(4 * n), x(2 * n + 1, -77), xh(3 * n + 1, -77); LD mn = 1e30; std::vector<LD> ex; for (int i = 0; i < n; ++i) { float w = 1 + i % 3; LD p[3]; for (int c = 0; c < 3; ++c) { X[3 * i + c] = PX[i][c]; H[4 * i + c] = PX[i][c] * w; } H[4 * i + 3] = w; for (int c = 0; c < 3; ++c) p[c] = (LD)M[c] * X[3 * i] + (LD)M[3 + c] * X[3 * i + 1] + (LD)M[6 + c] * X[3 * i + 2] + M[9 + c]; for (int c = 0; c < 3; ++c) ex.push_back(p[c]); mn = std::min(mn, fabsl(p[2])); }
            double s = nx_pinhole_project(M, n, X.data(), x.data()); nx_pinhole_project_h(M, n, H.data(), xh.data()); step(n); if (!close(s, mn, 1e-6)) fail("the smallest depth is %g instead of %Lg", s, mn); if (x[2 * n] != -77 || xh[3 * n] != -77) fail("a point too many is written");
            for (int i = 0; i < n; ++i) { if (!close(x[2 * i], ex[3 * i] / ex[3 * i + 2], 1e-5) || !close(x[2 * i + 1], ex[3 * i + 1] / ex[3 * i + 2], 1e-5)) { fail("point %d is projected to (%g,%g) instead of (%Lg,%Lg)", i, x[2 * i], x[2 * i + 1], ex[3 * i] / ex[3 * i + 2], ex[3 * i + 1] / ex[3 * i + 2]); break; } float w = 1 + i % 3; bool ok = true; for (int c = 0; c < 3; ++c) ok = ok && close(xh[3 * i + c], ex[3 * i + c] * w, 1e-5); if (!ok) { fail("homogeneous point %d is wrong", i); break; } } state(mix(hash_bytes(M, sizeof M), n)); }
    }
    for (size_t pi = 0; pi < P.size(); ++pi) for (int ki = 0; ki < 3; ++ki) for (int bits = 0; bits < 256; ++bits) for (double sz : {1.0, 0x1p7, 0x1p-7}) if (begin("triangulation")) { if (sz != 1 && bits % 5) continue; // larger and smaller worlds give the same images
        describe([&] { return fmt("pose %d calibration %d inlier pattern %x size %g", (int)pi, ki, bits, sz); }); const double TS[3] = {P[pi].t[0] * sz, P[pi].t[1] * sz, P[pi].t[2] * sz};
        double K[9] = {KS[ki][0], 0, 0, KS[ki][4], KS[ki][1], 0, KS[ki][2], KS[ki][3], 1}, P0[12], P1[12]; nx_pinhole_projection_from_krt(P0, K, NULL, NULL); nx_pinhole_projection_from_krt(P1, K, P[pi].R.data(), TS); PV v; std::vector<bool> good;
        for (int i = 0; i < 8; ++i) { float X[3] = {(float)(PX[i][0] * sz), (float)(PX[i][1] * sz), (float)(PX[i][2] * sz)}, a[2], b[2]; nx_pinhole_project(P0, 1, X, a); nx_pinhole_project(P1, 1, X, b); v.push_back(pm(a[0], a[1], b[0], b[1], i, 0, bits >> i & 1)); 
            double Y[3] = {0, 0, 0}; for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d) Y[c] += P[pi].R[3 * c + d] * TS[d]; double nx = std::sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]), dx = std::sqrt(std::pow(X[0] + Y[0], 2) + std::pow(X[1] + Y[1], 2) + std::pow(X[2] + Y[2], 2)), cs = (X[0] * (X[0] + Y[0]) + X[1] * (X[1] + Y[1]) + X[2] * (X[2] + Y[2])) / (nx * dx); good.push_back(cs < 0.9995); }
        int cnt = __builtin_popcount(bits); for (int cap = 0; cap <= 9; ++cap) { std::vector<float> X(3 * cap + 1, -55); std::vector<int> ids(cap + 1, -5); int n = nx_pinhole_triangulate(cap, X.data(), ids.data(), 8, v.data(), P0, P1); step(); if (n != std::min(cnt, cap)) { fail("%d points for %d inliers and room for %d", n, cnt, cap); break; } if (X[3 * cap] != -55 || ids[cap] != -5) fail("more than %d points are written", cap);
            int at = 0; for (int i = 0; i < 8 && at < n; ++i) if (bits >> i & 1) { if (ids[at] != i) { fail("point %d belongs to correspondence %d instead of %d", at, ids[at], i); break; } if (good[i]) { double er = 0; for (int c = 0; c < 3; ++c) er = std::max(er, std::fabs(X[3 * at + c] - PX[i][c] * sz)); if (!(er < (sz == 1 ? 0.02 : 0.05 * sz))) { fail("correspondence %d is triangulated to (%g,%g,%g) instead of (%g,%g,%g)", i, X[3 * at], X[3 * at + 1], X[3 * at + 2], PX[i][0], PX[i][1], PX[i][2]); break; } } ++at; } }
        state(mix(pi * 3 + ki, bits + (sz > 1 ? 256 : sz < 1 ? 512 : 0)));
    }
    // relative orientation
    for (size_t pi = 0; pi < P.size(); ++pi) for (int k = 0; k < 9; ++k) for (double sc : {1.0, -2.5, 30.0}) if (begin("essential-matrices")) {
        describe([&] { return fmt("pose %d calibrations %d scale %g", (int)pi, k, sc); });
        const Pose &p = P[pi]; M3 e = skewmul(p.t, p.R.data()); double E[9]; nx_essential_from_Rt(E, p.R.data(), p.t); step(3); if (!eqm(E, e.data(), 1e-12)) fail("the essential matrix is%s instead of%s", show3(E).c_str(), show3(e.data()).c_str());
        const double *a = KS[k % 3], *b = KS[k / 3]; double K[9] = {a[0], 0, 0, a[4], a[1], 0, a[2], a[3], 1}, Kp[9] = {b[0], 0, 0, b[4], b[1], 0, b[2], b[3], 1}, F[9], G[9]; for (int i = 0; i < 9; ++i) F[i] = std::sin(i * 1.3 + pi) * sc; nx_essential_from_fundamental(G, F, K, Kp); M3 t = tr3(Kp), tf = mul3(t.data(), F), g = mul3(tf.data(), K); for (int i = 0; i < 9; ++i) if (!close(G[i], g[i], 1e-9)) { fail("K'^T F K is%s instead of%s", show3(G).c_str(), show3(g.data()).c_str()); break; }
        for (int i = 0; i < 9; ++i) E[i] *= sc; double R[4][9], T[4][3], *Rp[4] = {R[0], R[1], R[2], R[3]}, *Tp[4] = {T[0], T[1], T[2], T[3]}, E0[9]; memcpy(E0, E, sizeof E); double s2 = nx_essential_decompose_to_Rt(E, Rp, Tp); if (memcmp(E, E0, sizeof E)) fail("the matrix is modified"); if (!(std::fabs(s2) < 1e-9 * (1 + std::fabs(sc)))) fail("the smallest singular value of an essential matrix is %g", s2);
        int hit = -1; double tn = std::sqrt(p.t[0] * p.t[0] + p.t[1] * p.t[1] + p.t[2] * p.t[2]); for (int i = 0; i < 4; ++i) { if (!is_rotation(R[i])) fail("candidate %d is not a rotation:%s", i, show3(R[i]).c_str()); if (std::fabs(T[i][0] * T[i][0] + T[i][1] * T[i][1] + T[i][2] * T[i][2] - 1) > 1e-9) fail("candidate %d has no unit translation", i); M3 ee = skewmul(T[i], R[i]); if (!eq_scale(ee.data(), E, 1e-9)) fail("candidate %d belongs to another essential matrix", i);
            for (int j = 0; j < i; ++j) if (eqm(R[i], R[j], 1e-6) && eqm(T[i], T[j], 1e-6, 3)) fail("candidates %d and %d are the same", i, j);
            double u[3] = {p.t[0] / tn, p.t[1] / tn, p.t[2] / tn}; if (eqm(R[i], p.R.data(), 1e-8) && eqm(T[i], u, 1e-8, 3)) hit = i; }
        if (hit < 0) { fail("no candidate is the true orientation"); continue; }
        PV v; for (int i = 0; i < 20; ++i) { double Y[3]; for (int c = 0; c < 3; ++c) Y[c] = p.R[c] * PX[i][0] + p.R[3 + c] * PX[i][1] + p.R[6 + c] * PX[i][2] + p.t[c]; if (Y[2] < 0.5) continue; double rx[3]; for (int c = 0; c < 3; ++c) rx[c] = Y[c] - p.t[c]; double cr[3] = {rx[1] * Y[2] - rx[2] * Y[1], rx[2] * Y[0] - rx[0] * Y[2], rx[0] * Y[1] - rx[1] * Y[0]}; double par = std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) / (std::sqrt(rx[0] * rx[0] + rx[1] * rx[1] + rx[2] * rx[2]) * std::sqrt(Y[0] * Y[0] + Y[1] * Y[1] + Y[2] * Y[2])); if (par < 0.02) continue; v.push_back(see(p, PX[i], i)); }
        for (size_t n = 1; n <= v.size(); ++n) for (int rot4 = 0; rot4 < 4; ++rot4) { const double *cR[4], *cT[4]; for (int i = 0; i < 4; ++i) { cR[i] = R[(i + rot4) % 4]; cT[i] = T[(i + rot4) % 4]; } int z = -99, b2 = nx_epipolar_pick_best_Rt(cR, cT, n, v.data(), &z); step(); if ((b2 + rot4) % 4 != hit) { fail("%d points in front of both cameras select candidate %d instead of %d", (int)n, (b2 + rot4) % 4, hit); break; } if (z != 2 * (int)n) { fail("%d points in front of both cameras have the sign sum %d", (int)n, z); break; } if (nx_epipolar_pick_best_Rt(cR, cT, n, v.data(), NULL) != b2) fail("the choice depends on the sum being asked for"); }
        state(hash_bytes(E, sizeof E));
    }
    // plane transforms
    static const double TA[] = {0, 0.4, -1.2, M_PI / 2, 3}, TL[] = {1, 0.5, 3}, TD[] = {0, 4, -2.5};
    for (double psi : TA) for (double th : {0.0, 0.5, -1.0}) for (double phi : TA) for (double l : TL) if (begin("plane-transforms")) {
        describe([&] { return fmt("psi %g theta %g phi %g scale %g", psi, th, phi, l); });
        for (double a : TD) for (double b : TD) for (double c : TD) for (double d : TD) {
            M3 post = {1, 0, 0, 0, 1, 0, a, b, 1}, pre = {1, 0, 0, 0, 1, 0, c, d, 1}, rp = rz(psi), rf = rz(phi); double D[9] = {l / std::cos(th), 0, 0, 0, l, 0, 0, 0, 1}, L[9] = {l, 0, 0, 0, l, 0, 0, 0, 1};
            M3 m = mul3(rf.data(), pre.data()); m = mul3(D, m.data()); m = mul3(rp.data(), m.data()); m = mul3(post.data(), m.data()); M3 s = mul3(rp.data(), pre.data()); s = mul3(L, s.data()); s = mul3(post.data(), s.data());
            double g[9]; float f[9]; bool ok = true; nx_transform_2d_fill_affine_d(g, a, b, l, psi, th, phi, c, d); nx_transform_2d_fill_affine_s(f, a, b, l, psi, th, phi, c, d); step(4); for (int i = 0; i < 9; ++i) ok = ok && close(g[i], m[i], 1e-6) && close(f[i], m[i], 1e-4); if (!ok) { fail("the affine transform is%s instead of%s", show3(g).c_str(), show3(m.data()).c_str()); break; }
            if (phi == 0 && th == 0) { nx_transform_2d_fill_similarity_d(g, a, b, l, psi, c, d); nx_transform_2d_fill_similarity_s(f, a, b, l, psi, c, d); for (int i = 0; i < 9; ++i) ok = ok && close(g[i], s[i], 1e-9) && close(f[i], s[i], 1e-4); if (!ok) { fail("the similarity is%s instead of%s", show3(g).c_str(), show3(s.data()).c_str()); break; } }
            state(hash_bytes(g, sizeof g));
        }
    }
    for (size_t hi = 0; hi < HS.size(); ++hi) if (begin("transfer")) { describe([&] { return fmt("homography %d", (int)hi); });
        VGHomography H; H.set(HS[hi].data()); for (int x = -10; x <= 10; ++x) for (int y = -10; y <= 10; ++y) { LD u, v, s; mapd(HS[hi].data(), x, y, u, v, s); double xd[2] = {(double)x, (double)y}, od[2]; float xf[2] = {(float)x, (float)y}, of[2], oc[2]; H.transfer_fwd(od, xd); H.transfer_fwd(of, xf); double s2 = nx_homography_transfer_fwd(HS[hi].data(), oc, xf); step(3); if (!close(od[0], u, 1e-12) || !close(od[1], v, 1e-12) || !close(of[0], u, 1e-6) || !close(of[1], v, 1e-6) || !close(oc[0], u, 1e-6) || !close(oc[1], v, 1e-6) || !close(s2, s, 1e-12)) { fail("(%d,%d) is transferred to (%g,%g) instead of (%Lg,%Lg)", x, y, od[0], od[1], u, v); break; } state(mix(hi, x * 64 + y)); } }
}
