// what the test plug-ins of P18 implement; they report to the harness through exported C functions
#ifndef VERIF_IFACE_HPP
#define VERIF_IFACE_HPP
struct Obj { virtual ~Obj() {} virtual const char *name() const = 0; virtual int tag() const = 0; };
extern "C" { void verif_loaded(const char *name, int tag, int delta); void verif_object(const char *name, int tag, void *obj, int delta); }
#endif
