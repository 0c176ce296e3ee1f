// One group of operations (-DG_...), registered before main.  Compiled on its own so that groups build in parallel.
#include "groups.hpp"
namespace { struct Registrar { Registrar() { register_ops<float>(); register_ops<double>(); } } registrar; }
