// fibers
#pragma once
#include <ucontext.h>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <sys/mman.h>
#include <link.h>
#include <cerrno>
#include <cstring>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace rtc {
struct EH { void* caught = nullptr; unsigned int uncaught = 0; };
inline EH* ehg() { return reinterpret_cast<EH*>(__cxxabiv1::__cxa_get_globals()); }
struct Stack { char* base; size_t size; };
inline std::vector<Stack>& pool() { static std::vector<Stack> p; return p; }
inline Stack getStack() {
    auto& p = pool();
    if (!p.empty()) { Stack s = p.back(); p.pop_back(); return s; }
    size_t sz = 1 << 20;
    char* b = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return {b, sz};
}
inline void putStack(Stack s) { pool().push_back(s); }
// thread-local storage of the program: every fiber has its own copy
struct Tls { char* base = nullptr; size_t size = 0; std::vector<char> image; };
inline Tls& tls() {
    static Tls t; static bool done = false;
    if (!done) { done = true;
        dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) { Tls* t = (Tls*)v;   // the first entry is the program itself
            for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
                t->base = (char*)i->dlpi_tls_data; t->size = i->dlpi_phdr[k].p_memsz; t->image.assign(t->size, 0);
                memcpy(t->image.data(), (char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz); }
            return 1; }, &t); }
    return t;
}
struct Ctx { ucontext_t uc; EH eh; std::vector<char> tls; int err = 0; };
inline void tlsSave(Ctx& c) { Tls& t = tls(); if (t.size) c.tls.assign(t.base, t.base + t.size); }
inline void tlsLoad(Ctx& c) { Tls& t = tls(); if (t.size) memcpy(t.base, (c.tls.empty() ? t.image : c.tls).data(), t.size); }
// swap with exception-state and thread-local hand over
inline void swapTo(Ctx& from, Ctx& to) {
    EH* g = ehg();
    from.eh = *g; *g = to.eh;
    int* e = &errno; from.err = *e; *e = to.err; tlsSave(from); tlsLoad(to);
    swapcontext(&from.uc, &to.uc);
}
}
