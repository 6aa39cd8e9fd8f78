#include "common.hpp"

CASE(weight_laws) {
    double re = sym("re", 0.0009765625, 1024), d = sym("d", 1e-12, 4096);
    double w = weight(d, re);
    if (decide(le(re, d))) check(eq(w, 0.0), "the weight vanishes at and beyond the effective radius");
    else {
        check(lt(0.0, w), "the weight is positive inside the effective radius");
        check(close(w * d, re - d, 1e-8), "weight = re/d - 1 inside the effective radius");
    }
    observe("w", w);
}
CASE(weight_monotone) {
    double re = sym("re", 0.0009765625, 1024), a = sym("a", 1e-9, 4096), b = sym("b", 1e-9, 4096);
    assume(lt(a, b));
    double wa = weight(a, re), wb = weight(b, re);
    check(le(wb, wa), "the weight never grows with distance");
    if (decide(lt(a, re))) check(lt(wb, wa), "inside the effective radius the weight strictly decreases");
}
CASE(weight_scale) {
    double re = sym("re", 0.25, 4), d = sym("d", 0.125, 8), k = sym("k", 0.125, 8);
    check(close(weight(k * d, k * re), weight(d, re), 1e-6), "the weight depends only on the ratio of distance and radius");
}
static void refs(int dim, double l0) {
    double re = sym("re", 1.0625 * l0, (dim == 2 ? 9.5 : 6.5) * l0);
    RefValues r(dim, l0, re);
    double n0 = 0, num = 0;
    int k = dim == 2 ? 10 : 7;
    for (int x = -k; x <= k; x++)
        for (int y = -k; y <= k; y++)
            for (int z = dim == 2 ? 0 : -k; z <= (dim == 2 ? 0 : k); z++) {
                if (!x && !y && !z) continue;
                double d2 = (x * l0) * (x * l0) + (y * l0) * (y * l0) + (z * l0) * (z * l0), d = std::sqrt(d2);
                if (!decide(lt(d, re))) continue;
                double w = re / d - 1.0;
                n0 += w;
                num += d2 * w;
            }
    check(close(r.n0, n0, 1e-6), "n0 is the kernel sum over all lattice neighbours within the radius");
    check(lt(0.0, n0), "n0 is positive");
    check(close(r.lambda * n0, num, 1e-6), "lambda is the kernel-weighted mean square distance");
    observe("n0", r.n0);
    observe("lambda", r.lambda);
}
CASE(refvalues_2d) { refs(2, 1.0); }
CASE(refvalues_3d) { refs(3, 1.0); }
CASE(refvalues_scale) {
    static const double sc[4] = {0.03125, 0.25, 8.0, 2.0};
    int i = choice("k", 4);
    double k = sc[i];
    double re = sym("re", 1.5, 6.5);
    int dim = 2;
    RefValues a(dim, 1.0, re), b(dim, k, k * re);
    check(close(a.n0, b.n0, 1e-6), "n0 does not depend on the length unit");
    check(close(a.lambda * (k * k), b.lambda, 1e-6), "lambda scales with the square of the length unit");
}
