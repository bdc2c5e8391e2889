/* C38: boundary condition and source collections, all append/clear sequences of length STEPS */
#include "cb.h"
#if WHICH == 0
#include <opm/core/pressure/flow_bc.h>
#elif WHICH == 1
#include <opm/core/transport/implicit/transport_source.h>
#elif WHICH == 2
#include <opm/core/pressure/tpfa/compr_source.h>
#else
#include <opm/core/pressure/tpfa/compr_bc.h>
#endif
static double dv(void) { double x; ND_DOUBLE(x); ASSUME(x == x); return x; }
static int iv(void) { int x; ND_INT(x); return x; }

static int code = SHAPE; static int step(int n) { const int r = code % n; code /= n; return r; }   /* capacities and operation kinds are split into cases, data stay symbolic */
void harness(void)
{
#if WHICH == 0
    const int ncap = step(3); struct FlowBoundaryConditions *b = flow_conditions_construct(ncap); ASSUME(b != NULL);
    CHECK(b->nbc == 0 && b->cond_pos[0] == 0, "new collection is empty");
    int n = 0, pos[STEPS + 1], ty[STEPS], fa[3 * STEPS]; double va[STEPS]; pos[0] = 0;
    for (int s = 0; s < STEPS; ++s) {
        const int op = step(4);
        if (op == 3) { flow_conditions_clear(b); n = 0; }
        else { int t; ND_RANGE(t, 0, 2); double v = dv(); const int nf = op + 1; int f[3]; for (int i = 0; i < nf; ++i) f[i] = iv();
            const int ok = op == 0 ? flow_conditions_append((enum FlowBCType)t, f[0], v, b) : flow_conditions_append_multi((enum FlowBCType)t, nf, f, v, b);
            CHECK(ok == 1, "append succeeds"); ty[n] = t; va[n] = v; for (int i = 0; i < nf; ++i) fa[pos[n] + i] = f[i]; pos[n + 1] = pos[n] + nf; ++n; }
        CHECK((int)b->nbc == n, "number of conditions");
        for (int k = 0; k < n; ++k) { CHECK((int)b->type[k] == ty[k] && b->value[k] == va[k], "conditions keep type and value in order"); CHECK((int)b->cond_pos[k] == pos[k] && (int)b->cond_pos[k + 1] == pos[k + 1], "conditions keep their faces"); for (int i = pos[k]; i < pos[k + 1]; ++i) CHECK(b->face[i] == fa[i], "conditions keep their faces"); }
    }
    REACH(); flow_conditions_destroy(b);
#elif WHICH == 1
    const int ncap = step(3); struct TransportSource *b = create_transport_source(ncap, NP); ASSUME(b != NULL); CHECK(create_transport_source(1, 0) == NULL, "no phases: refused");
    int n = 0, ce[STEPS]; double p[STEPS], v[STEPS], sa[STEPS][NP], zz[STEPS][NP];
    for (int s = 0; s < STEPS; ++s) {
        const int op = step(3);
        if (op == 0) { clear_transport_source(b); n = 0; }
        else if (op == 1) { double d[NP + 1]; for (int i = 0; i <= NP; ++i) d[i] = dv(); CHECK(append_transport_source(1, NP + 1, d[0], d[1], d, d, b) <= 0, "wrong phase count is refused"); }
        else { ce[n] = iv(); p[n] = dv(); v[n] = dv(); for (int i = 0; i < NP; ++i) { sa[n][i] = dv(); zz[n][i] = dv(); } CHECK(append_transport_source(ce[n], NP, p[n], v[n], sa[n], zz[n], b) == 1, "append succeeds"); ++n; }
        CHECK(b->nsrc == n, "number of sources");
        for (int k = 0; k < n; ++k) { CHECK(b->cell[k] == ce[k] && b->pressure[k] == p[k] && b->flux[k] == v[k], "sources keep cell, pressure and flux in order"); for (int i = 0; i < NP; ++i) CHECK(b->saturation[k * NP + i] == sa[k][i] && b->surfvolume[k * NP + i] == zz[k][i], "sources keep compositions"); }
    }
    REACH(); destroy_transport_source(b);
#elif WHICH == 2
    const int ncap = step(3); struct compr_src *b = compr_src_allocate(NP, ncap); ASSUME(b != NULL); CHECK(compr_src_allocate(0, 1) == NULL, "no phases: refused");
    int n = 0, ce[STEPS]; double v[STEPS], sa[STEPS][NP];
    for (int s = 0; s < STEPS; ++s) {
        const int op = step(3);
        if (op == 0) { clear_compr_source_term(b); n = 0; }
        else if (op == 1) { double d[NP + 1]; for (int i = 0; i <= NP; ++i) d[i] = dv(); CHECK(append_compr_source_term(1, NP + 1, d[0], d, b) <= 0, "wrong phase count is refused"); }
        else { ce[n] = iv(); v[n] = dv(); for (int i = 0; i < NP; ++i) sa[n][i] = dv(); CHECK(append_compr_source_term(ce[n], NP, v[n], sa[n], b) == 1, "append succeeds"); ++n; }
        CHECK(b->nsrc == n, "number of sources");
        for (int k = 0; k < n; ++k) { CHECK(b->cell[k] == ce[k] && b->flux[k] == v[k], "sources keep cell and flux in order"); for (int i = 0; i < NP; ++i) CHECK(b->saturation[k * NP + i] == sa[k][i], "sources keep compositions"); }
    }
    REACH(); compr_src_deallocate(b);
#else
    const int ncap = step(3); struct compr_bc *b = compr_bc_allocate(NP, ncap); ASSUME(b != NULL); CHECK(compr_bc_allocate(0, 1) == NULL, "no phases: refused");
    int n = 0, ty[STEPS], fa[STEPS]; double p[STEPS], v[STEPS], sa[STEPS][NP];
    for (int s = 0; s < STEPS; ++s) {
        const int op = step(3);
        if (op == 0) { compr_bc_clear(b); n = 0; }
        else if (op == 1) { double d[NP + 1]; for (int i = 0; i <= NP; ++i) d[i] = dv(); CHECK(compr_bc_append(BC_PRESSURE, 1, NP + 1, d[0], d[1], d, b) <= 0, "wrong phase count is refused"); }
        else { ND_RANGE(ty[n], 0, 1); fa[n] = iv(); p[n] = dv(); v[n] = dv(); for (int i = 0; i < NP; ++i) sa[n][i] = dv(); CHECK(compr_bc_append((enum compr_bc_type)ty[n], fa[n], NP, p[n], v[n], sa[n], b) == 1, "append succeeds"); ++n; }
        CHECK(b->nbc == n, "number of conditions");
        for (int k = 0; k < n; ++k) { CHECK((int)b->type[k] == ty[k] && b->face[k] == fa[k] && b->press[k] == p[k] && b->flux[k] == v[k], "conditions keep type, face and values in order"); for (int i = 0; i < NP; ++i) CHECK(b->saturation[k * NP + i] == sa[k][i], "conditions keep compositions"); }
    }
    REACH(); compr_bc_deallocate(b);
#endif
}

