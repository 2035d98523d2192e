// Runs a function on a stack of its own of limited size, with an unmapped page below it.
#pragma once
#include <ucontext.h>
#include <sys/mman.h>
#include <functional>
namespace sim {
inline void on_small_stack(size_t bytes, std::function<void()> f) {
    static std::function<void()>* cur; static std::exception_ptr ex; cur = &f; ex = nullptr;
    char* m = (char*) mmap(nullptr, bytes + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(m + 4096, bytes, PROT_READ | PROT_WRITE);
    ucontext_t a, b; getcontext(&b); b.uc_stack.ss_sp = m + 4096; b.uc_stack.ss_size = bytes; b.uc_link = &a;
    makecontext(&b, +[] { try { (*cur)(); } catch (...) { ex = std::current_exception(); } }, 0); swapcontext(&a, &b); munmap(m, bytes + 4096); if (ex) std::rethrow_exception(ex);
}
}
