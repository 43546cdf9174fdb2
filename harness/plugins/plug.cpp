#include "iface.hpp"
#define STR2(x) #x
#define STR(x) STR2(x)
namespace { struct Impl : Obj { Impl() { verif_object(NAME, TAG, this, 1); } ~Impl() { verif_object(NAME, TAG, this, -1); } const char *name() const { return NAME; } int tag() const { return TAG; } }; }
#ifndef NO_CREATE
extern "C" __attribute__((visibility("default"))) Obj *create(void) __asm__("pion_create_" NAME);
extern "C" Obj *create(void) { return new Impl; }
#endif
#ifndef NO_DESTROY
extern "C" __attribute__((visibility("default"))) void destroy(Obj *) __asm__("pion_destroy_" NAME);
extern "C" void destroy(Obj *o) { if (o->tag() != TAG) __builtin_trap(); delete o; }
#endif
static void __attribute__((constructor)) up() { verif_loaded(NAME, TAG, 1); }
static void __attribute__((destructor)) down() { verif_loaded(NAME, TAG, -1); }
