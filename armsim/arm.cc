// Loads the operators compiled for 64-bit Arm (guest.so) and runs them on the
// simulated processor.  A call from the host into guest code faults, because
// guest pages are never executable, and the fault handler turns it into a call
// of the interpreter; a branch of the guest to an address outside the guest's
// code is a call into the host.
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "cpu.h"
#include "lcesim.h"
namespace tflite { class MutableOpResolver; }
extern "C" {
void lcesim_access(std::uintptr_t a, std::size_t n, bool write);
extern bool (*lcesim_fault_hook)(void* ucontext);
extern std::uintptr_t lcesim_global_lo, lcesim_global_hi;
void lcesim_bridge();
void* __tsan_memcpy(void*, const void*, unsigned long);
void* __tsan_memmove(void*, const void*, unsigned long);
void* __tsan_memset(void*, int, unsigned long);
}
using namespace armsim;
namespace {
constexpr u64 kGuestBase = 0x310000000000ull;
constexpr u64 kReturn = 0x31fffffff000ull;  // the address a called guest function returns to
constexpr std::size_t kStack = 512 << 10;
u64 g_lo = 0, g_hi = 0;       // guest image
u64 g_text_lo = 0, g_text_hi = 0;
std::map<std::string, u64>* g_symbols;
std::map<u64, std::string>* g_functions;
std::map<u64, std::string>* g_host;

struct Thread {
  char* stack = nullptr;
  Cpu* cpu = nullptr;
  ~Thread() { if (stack) munmap(stack, kStack); }
};
thread_local Thread t_thread;

std::string where(u64 pc) {
  auto it = g_functions->upper_bound(pc);
  char b[200];
  if (it == g_functions->begin()) snprintf(b, sizeof b, "%#llx", (unsigned long long)pc);
  else { --it; snprintf(b, sizeof b, "%.150s+%#llx", it->second.c_str(), (unsigned long long)(pc - it->first)); }
  return b;
}
void on_guest_access(u64 a, unsigned n, bool w) {
  const char* s = t_thread.stack;
  if (a >= (u64)s && a < (u64)s + kStack) return;  // its own stack
  lcesim_access(a, n, w);
}
[[noreturn]] void on_stop(const char* why, u64 pc, u32 insn, bool machine) {
  lcesim::Task* t = lcesim::self();
  if (t) t->in_op = 0;
  if (machine) {  // not a statement about the code
    fprintf(stderr, "%s: %08x at %s\n", why, insn, where(pc).c_str());
    lcesim::machine_trouble(why, insn, where(pc).c_str());
  }
  lcesim::violation("crash: %s at %s", why, where(pc).c_str());
}
struct HostCall {
  u64 ints[8];
  double fps[8];
  u64 stack[4];
  u64 rax, rdx;
  double xmm0;
};
extern "C" void lcesim_host(u64 fn, HostCall* call);
void host_call(Cpu& c) {
  // eight integer and eight floating-point arguments, and what the caller put on its stack
  HostCall h;
  for (int i = 0; i < 8; i++) { h.ints[i] = c.x[i]; h.fps[i] = c.v[i].g[0]; }
  memcpy(h.stack, (const void*)c.x[31], sizeof h.stack);
  const u64 saved = c.x[30];
  lcesim_host(c.pc, &h);
  // registers a call does not preserve
  for (int i = 2; i < 18; i++) c.x[i] = 0xdead0000dead0000ull + (u64)i;
  for (int i = 0; i < 32; i++) {
    if (i < 8 || i > 15) c.v[i].d[0] = 0x7ff4dead00000000ull + (u64)i;
    c.v[i].d[1] = 0x7ff4dead00000000ull + (u64)i;
  }
  c.x[0] = h.rax;
  c.x[1] = h.rdx;
  c.v[0].g[0] = h.xmm0;
  c.v[0].d[1] = 0;
  c.excl_size = 0;
  c.x[30] = saved;
  c.pc = saved;
}
u64 guest_run(u64 target, const u64* ints, const double* fps, const u64* stack_args, double* fp_out, u64* second) {
  Thread& t = t_thread;
  if (!t.stack) {
    t.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t.stack == MAP_FAILED) { fprintf(stderr, "no memory for a stack\n"); _exit(2); }
  }
  struct Scope {
    Thread& t; Cpu* prev;
    ~Scope() { t.cpu = prev; }
  } scope{t, t.cpu};
  Cpu c;
  u64 sp = scope.prev ? (scope.prev->x[31] - 512) & ~(u64)15 : (u64)t.stack + kStack - 256;
  if (sp < (u64)t.stack + 16384) on_stop("the stack is exhausted", target, 0, false);
  for (int i = 0; i < 32; i++) {
    c.x[i] = 0xdead0000beef0000ull + (u64)i;
    c.v[i].d[0] = c.v[i].d[1] = 0x7ff4beef00000000ull + (u64)i;
  }
  for (int i = 0; i < 6; i++) c.x[i] = ints[i];
  c.x[6] = stack_args[0];
  c.x[7] = stack_args[1];
  memcpy((void*)sp, stack_args + 2, 64);
  for (int i = 0; i < 8; i++) { c.v[i].g[0] = fps[i]; c.v[i].d[1] = 0; }
  c.x[31] = sp;
  c.x[30] = kReturn;
  c.pc = target;
  Cpu in = c;
  t.cpu = &c;
  while (true) {
    if (c.pc >= g_text_lo && c.pc < g_text_hi) {
      if (__builtin_expect(c.x[31] < (u64)t.stack + 8192 || c.x[31] > sp, 0)) on_stop("the stack pointer left the stack", c.pc, 0, false);
      step(c);
      if (__builtin_expect((c.steps & 0xffff) == 0, 0) && c.steps > 400000000ull) on_stop("no progress: too many instructions in one call", c.pc, 0, false);
      continue;
    }
    if (c.pc == kReturn) break;
    if (c.pc < 4096 || (c.pc >= g_lo && c.pc < g_hi)) on_stop("a branch to an address that holds no code", c.pc, 0, false);
    host_call(c);
  }
  lcesim::g_res->counters[lcesim::cGuestInstructions] += c.steps;
  lcesim::g_res->counters[lcesim::cGuestCalls]++;
  if (c.x[31] != sp) on_stop("a function returned with another stack pointer", target, 0, false);
  for (int i = 19; i < 30; i++)
    if (c.x[i] != in.x[i]) { char b[100]; snprintf(b, sizeof b, "a function returned without restoring register x%d", i); on_stop(b, target, 0, false); }
  for (int i = 8; i < 16; i++)
    if (c.v[i].d[0] != in.v[i].d[0]) { char b[100]; snprintf(b, sizeof b, "a function returned without restoring register d%d", i); on_stop(b, target, 0, false); }
  *fp_out = c.v[0].g[0];
  *second = c.x[1];
  return c.x[0];
}
}  // namespace
extern "C" void lcesim_guest_enter(u64 target, u64* regs, const u64* stack_args) {
  double f;
  u64 second;
  const u64 r = guest_run(target, regs, (const double*)(regs + 8), stack_args, &f, &second);
  regs[0] = r;
  regs[1] = second;
  memcpy(&regs[8], &f, 8);
}
asm(R"(
.text
.globl lcesim_host
.type lcesim_host,@function
lcesim_host:
.cfi_startproc
  push %rbp
.cfi_def_cfa_offset 16
.cfi_offset %rbp,-16
  mov %rsp,%rbp
.cfi_def_cfa_register %rbp
  push %rbx
.cfi_offset %rbx,-24
  sub $56,%rsp
  mov %rsi,%rbx
  mov %rdi,%r11
  mov 48(%rbx),%rax
  mov %rax,0(%rsp)
  mov 56(%rbx),%rax
  mov %rax,8(%rsp)
  mov 128(%rbx),%rax
  mov %rax,16(%rsp)
  mov 136(%rbx),%rax
  mov %rax,24(%rsp)
  mov 144(%rbx),%rax
  mov %rax,32(%rsp)
  mov 152(%rbx),%rax
  mov %rax,40(%rsp)
  mov 0(%rbx),%rdi
  mov 8(%rbx),%rsi
  mov 16(%rbx),%rdx
  mov 24(%rbx),%rcx
  mov 32(%rbx),%r8
  mov 40(%rbx),%r9
  movsd 64(%rbx),%xmm0
  movsd 72(%rbx),%xmm1
  movsd 80(%rbx),%xmm2
  movsd 88(%rbx),%xmm3
  movsd 96(%rbx),%xmm4
  movsd 104(%rbx),%xmm5
  movsd 112(%rbx),%xmm6
  movsd 120(%rbx),%xmm7
  mov $8,%eax
  call *%r11
  mov %rax,160(%rbx)
  mov %rdx,168(%rbx)
  movsd %xmm0,176(%rbx)
  mov -8(%rbp),%rbx
  leave
.cfi_def_cfa %rsp,8
  ret
.cfi_endproc
.size lcesim_host,.-lcesim_host
.globl lcesim_bridge
.type lcesim_bridge,@function
lcesim_bridge:
.cfi_startproc
  push %rbp
.cfi_def_cfa_offset 16
.cfi_offset %rbp,-16
  mov %rsp,%rbp
.cfi_def_cfa_register %rbp
  sub $128,%rsp
  mov %rdi,0(%rsp)
  mov %rsi,8(%rsp)
  mov %rdx,16(%rsp)
  mov %rcx,24(%rsp)
  mov %r8,32(%rsp)
  mov %r9,40(%rsp)
  movsd %xmm0,64(%rsp)
  movsd %xmm1,72(%rsp)
  movsd %xmm2,80(%rsp)
  movsd %xmm3,88(%rsp)
  movsd %xmm4,96(%rsp)
  movsd %xmm5,104(%rsp)
  movsd %xmm6,112(%rsp)
  movsd %xmm7,120(%rsp)
  mov %r11,%rdi
  mov %rsp,%rsi
  lea 16(%rbp),%rdx
  call lcesim_guest_enter
  mov 0(%rsp),%rax
  mov 8(%rsp),%rdx
  movsd 64(%rsp),%xmm0
  leave
.cfi_def_cfa %rsp,8
  ret
.cfi_endproc
.size lcesim_bridge,.-lcesim_bridge
)");
namespace {
bool fault_hook(void* uc) {
  auto* g = ((ucontext_t*)uc)->uc_mcontext.gregs;
  const u64 rip = (u64)g[REG_RIP];
  if (rip < g_text_lo || rip >= g_text_hi) return false;
  g[REG_R11] = (greg_t)rip;
  g[REG_RIP] = (greg_t)&lcesim_bridge;
  return true;
}
u64 host_symbol(const char* name) {
  if (!strcmp(name, "memcpy")) return (u64)&__tsan_memcpy;
  if (!strcmp(name, "memmove")) return (u64)&__tsan_memmove;
  if (!strcmp(name, "memset")) return (u64)&__tsan_memset;
  if (!strncmp(name, "__cxa_guard_", 12) || !strncmp(name, "pthread_", 8)) {  // the seams of the scheduler
    const std::string w = std::string("__wrap_") + name;
    if (void* p = dlsym(RTLD_DEFAULT, w.c_str())) return (u64)p;
  }
  return (u64)dlsym(RTLD_DEFAULT, name);
}
[[noreturn]] void bad(const char* what, const char* detail = "") {
  fprintf(stderr, "guest image: %s %s\n", what, detail);
  _exit(2);
}
extern "C" void lcesim_unresolved() { bad("the guest calls a function the host does not have"); }
}  // namespace
namespace armsim {
u64 symbol(const char* name) {
  auto it = g_symbols->find(name);
  if (it == g_symbols->end()) bad("no symbol", name);
  return it->second;
}
void load_guest() {
  g_symbols = new std::map<std::string, u64>;
  g_functions = new std::map<u64, std::string>;
  char self[4096];
  const ssize_t k = readlink("/proc/self/exe", self, sizeof self - 16);
  if (k <= 0) bad("where is the simulator?");
  self[k] = 0;
  strcpy(strrchr(self, '/') + 1, "guest.so");
  const int fd = open(self, O_RDONLY);
  struct stat stt;
  if (fd < 0 || fstat(fd, &stt)) bad("cannot open", self);
  const char* f = (const char*)mmap(nullptr, (std::size_t)stt.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  if (f == MAP_FAILED) bad("cannot map", self);
  const auto* eh = (const Elf64_Ehdr*)f;
  if (memcmp(eh->e_ident, ELFMAG, SELFMAG) || eh->e_machine != EM_AARCH64) bad("not for this processor");
  const auto* ph = (const Elf64_Phdr*)(f + eh->e_phoff);
  u64 end = 0;
  for (int i = 0; i < eh->e_phnum; i++) if (ph[i].p_type == PT_LOAD && ph[i].p_vaddr + ph[i].p_memsz > end) end = ph[i].p_vaddr + ph[i].p_memsz;
  const std::size_t total = (end + 0xffff) & ~(u64)0xffff;
  char* base = (char*)mmap((void*)kGuestBase, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (base != (char*)kGuestBase) bad("its addresses are taken");
  g_lo = kGuestBase;
  g_hi = kGuestBase + total;
  const Elf64_Dyn* dyn = nullptr;
  for (int i = 0; i < eh->e_phnum; i++) {
    if (ph[i].p_type == PT_DYNAMIC) dyn = (const Elf64_Dyn*)(base + ph[i].p_vaddr);
    if (ph[i].p_type != PT_LOAD) continue;
    memcpy(base + ph[i].p_vaddr, f + ph[i].p_offset, ph[i].p_filesz);
    const u64 lo = kGuestBase + ph[i].p_vaddr, hi = lo + ph[i].p_memsz;
    if (ph[i].p_flags & PF_X) { if (!g_text_lo || lo < g_text_lo) g_text_lo = lo; if (hi > g_text_hi) g_text_hi = hi; }
    if (ph[i].p_flags & PF_W) { if (!lcesim_global_lo || lo < lcesim_global_lo) lcesim_global_lo = lo; if (hi > lcesim_global_hi) lcesim_global_hi = hi; }
  }
  if (!dyn || !g_text_hi) bad("no dynamic section or no code");
  const Elf64_Sym* sym = nullptr;
  const char* str = nullptr;
  u64 rela = 0, relasz = 0, jmp = 0, jmpsz = 0, initarr = 0, initsz = 0;
  for (const Elf64_Dyn* d = dyn; d->d_tag; d++) switch (d->d_tag) {
    case DT_SYMTAB: sym = (const Elf64_Sym*)(base + d->d_un.d_ptr); break;
    case DT_STRTAB: str = base + d->d_un.d_ptr; break;
    case DT_RELA: rela = d->d_un.d_ptr; break;
    case DT_RELASZ: relasz = d->d_un.d_val; break;
    case DT_JMPREL: jmp = d->d_un.d_ptr; break;
    case DT_PLTRELSZ: jmpsz = d->d_un.d_val; break;
    case DT_INIT_ARRAY: initarr = d->d_un.d_ptr; break;
    case DT_INIT_ARRAYSZ: initsz = d->d_un.d_val; break;
    default: break;
  }
  auto resolve = [&](u32 idx) -> u64 {
    const Elf64_Sym& s = sym[idx];
    if (s.st_shndx != SHN_UNDEF) return kGuestBase + s.st_value;
    const u64 h = host_symbol(str + s.st_name);
    if (h) return h;
    if (ELF64_ST_BIND(s.st_info) == STB_WEAK) return 0;
    fprintf(stderr, "guest image: the host has no %s\n", str + s.st_name);
    return (u64)&lcesim_unresolved;
  };
  auto relocate = [&](u64 off, u64 size) {
    const auto* r = (const Elf64_Rela*)(base + off);
    for (u64 i = 0; i < size / sizeof *r; i++) {
      u64* at = (u64*)(base + r[i].r_offset);
      switch (ELF64_R_TYPE(r[i].r_info)) {
        case R_AARCH64_RELATIVE: *at = kGuestBase + (u64)r[i].r_addend; break;
        case R_AARCH64_GLOB_DAT: case R_AARCH64_JUMP_SLOT: case R_AARCH64_ABS64: *at = resolve(ELF64_R_SYM(r[i].r_info)) + (u64)r[i].r_addend; break;
        default: bad("unknown relocation");
      }
    }
  };
  relocate(rela, relasz);
  relocate(jmp, jmpsz);
  const auto* sh = (const Elf64_Shdr*)(f + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) {
    if (sh[i].sh_type != SHT_SYMTAB && sh[i].sh_type != SHT_DYNSYM) continue;
    const auto* s = (const Elf64_Sym*)(f + sh[i].sh_offset);
    const char* st = f + sh[sh[i].sh_link].sh_offset;
    for (u64 j = 0; j < sh[i].sh_size / sizeof *s; j++)
      if (s[j].st_shndx != SHN_UNDEF && ELF64_ST_TYPE(s[j].st_info) == STT_FUNC) {
        (*g_symbols)[st + s[j].st_name] = kGuestBase + s[j].st_value;
        (*g_functions)[kGuestBase + s[j].st_value] = st + s[j].st_name;
      }
  }
  munmap((void*)f, (std::size_t)stt.st_size);
  g_hooks.access = on_guest_access;
  g_hooks.stop = on_stop;
  lcesim_fault_hook = fault_hook;
  lcesim::g_where = [] { return t_thread.cpu ? where(t_thread.cpu->pc) : std::string("?"); };
  for (u64 i = 0; i < initsz / 8; i++) {
    const u64 fn = ((const u64*)(base + initarr))[i];
    u64 regs[16] = {0}, args[16] = {0};
    if (fn && fn != ~(u64)0) lcesim_guest_enter(fn, regs, args);
  }
}
}  // namespace armsim
namespace lcesim {
void register_guest_ops(tflite::MutableOpResolver* r, bool ref, bool indirect) {
  typedef void (*Fn)(tflite::MutableOpResolver*, int, int);
  static const u64 fn = armsim::symbol("lcesim_guest_register");
  ((Fn)fn)(r, ref, indirect);
}
}  // namespace lcesim
