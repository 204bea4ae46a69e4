// Linked into the code under test: routes draws and list capacities through the simulator.
#include <string>
extern "C" {
double qs_draw(double lo, double hi, double v);
unsigned qs_cap(unsigned cap);
void qs_event(const char* name);
double __real__ZN7MCTools10RandDoubleEdd(double, double);
double __wrap__ZN7MCTools10RandDoubleEdd(double lo, double hi) { return qs_draw(lo, hi, __real__ZN7MCTools10RandDoubleEdd(lo, hi)); }
void __real__ZN12ParticleListC1ENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEj(void*, std::string*, unsigned);
void __wrap__ZN12ParticleListC1ENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEj(void* t, std::string* s, unsigned n)
{ qs_event(s->c_str()); __real__ZN12ParticleListC1ENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEj(t, s, qs_cap(n)); }
}
