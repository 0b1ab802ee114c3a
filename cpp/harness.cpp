// entry points of the checks; includes the real code
#include VP_BINDINGS
using pybind11::Val;
extern "C" {
Val* vp_int(long x) { Val* v = new Val(); v->kind = pybind11::INT; v->i = x; return v; }
Val* vp_float(double x) { Val* v = new Val(); v->kind = pybind11::FLOAT; v->f = x; return v; }
Val* vp_make(int kind) { Val* v = new Val(); v->kind = static_cast<pybind11::Kind>(kind); return v; }
void vp_chr(Val* v, int c) { v->s.push_back(static_cast<char>(c)); }
void vp_push(Val* v, Val* x) { v->items.push_back(x); }
void vp_attr(Val* v, Val* name, Val* x) { v->names.push_back(name->s); v->items.push_back(x); }
void vp_item(Val* v, Val* key, Val* x) { v->keys.push_back(key); v->items.push_back(x); }
long vp_size(Val* v) { return static_cast<long>(v->items.size()); }
double vp_re(Val* v, long k) { return v->items[static_cast<std::size_t>(k)]->f; }
double vp_im(Val* v, long k) { return v->items[static_cast<std::size_t>(k)]->g; }
Val* vp_simulate(Val* circ, Val* noise) {
  pybind11::object c(circ), n(noise);
  return stateVectorSimulation(c, n).p;
}
#ifdef VP_NATIVE
int vp_try(Val* circ, Val* noise, Val** out) { try { *out = vp_simulate(circ, noise); return 0; } catch (...) { return 1; } }
#endif
}
