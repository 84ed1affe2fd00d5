// C34: file_view under every outcome of the system calls it makes.
// The system headers come first, then the calls are redirected to stand-ins whose
// results are symbolic, then the implementation itself is compiled into this unit.
#include <cerrno>
#include <cassert>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <gsl/span>
#include <memory>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <system_error>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>
#include "kls.h"
namespace stub {
static const char* want_path;
static int fd_open, fd_given, err;
static int opens, closes, maps, unmaps, failed;
static size_t file_size, map_len;
static unsigned char* mem;
static unsigned char content[B_LEN + 1];
static int fail(int e) { err = e; failed = 1; errno = e; return -1; }
static int fault(const char* n)
{
    if (!kls::choose(n, 2)) return 0;
    int e = (int)kls_sym("errno", 8);
    kls_assume(e >= 1 && e <= 133);
    return e;
}
static int s_open(const char* p, int flags, ...)
{
    CHECKM(p == want_path, "the requested file is opened");
    CHECKM((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)), "the file is opened for reading only");
    if (int e = fault("open_fails")) return fail(e);
    ++opens;
    fd_open = 1;
    fd_given = (int)kls::range("fd", 0, 4);
    return fd_given;
}
static int s_fstat(int fd, struct stat* st)
{
    CHECKM(fd_open && fd == fd_given, "fstat on the open descriptor");
    if (int e = fault("fstat_fails")) return fail(e);
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)file_size;
    st->st_mode = S_IFREG | 0444;
    return 0;
}
static void* s_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off)
{
    CHECKM(addr == nullptr || !(flags & MAP_FIXED), "no fixed mapping");
    CHECKM(fd_open && fd == fd_given, "mmap of the open descriptor");
    CHECKM(off == 0 && len == file_size, "the whole file is mapped");
    CHECKM(!(prot & PROT_WRITE) && (prot & PROT_READ), "mapped for reading");
    if (int e = len == 0 ? EINVAL : fault("mmap_fails")) { fail(e); return MAP_FAILED; }
    ++maps;
    map_len = len;
#ifdef B_BIG // nobody looks inside
    mem = new unsigned char[1];
#else
    mem = new unsigned char[len];
    for (size_t i = 0; i < len; ++i) mem[i] = content[i];
#endif
    return mem;
}
static int s_munmap(void* p, size_t len)
{
    CHECKM(mem && p == mem && len == map_len, "exactly the mapping is released, once");
    delete[] mem;
    mem = nullptr;
    ++unmaps;
    return 0;
}
static int s_close(int fd)
{
    CHECKM(fd_open && fd == fd_given, "exactly the open descriptor is closed, once");
    fd_open = 0;
    ++closes;
    if (kls::choose("close_fails", 2)) { errno = EIO; return -1; }
    return 0;
}
}
namespace kl { namespace stub = ::stub; }
#define open stub::s_open
#define open64 stub::s_open
#define fstat(...) stub::s_fstat(__VA_ARGS__)
#define mmap stub::s_mmap
#define mmap64 stub::s_mmap
#define munmap stub::s_munmap
#define close stub::s_close
#include "src/file_view_unix.cpp"
#undef open
#undef fstat
#undef mmap
#undef munmap
#undef close
template <typename V> static void copies(V& v)
{
    if constexpr (std::is_copy_constructible<V>::value) {
        V w(v);
        CHECKM(w.get_bytes().size() == v.get_bytes().size(), "a copy sees the file");
    }
}
extern "C" void kls_harness()
{
    using namespace stub;
    static char path[] = "some/file";
    want_path = path;
#ifdef B_BIG
    file_size = (size_t)kls::sym<uint64_t>("size");
    kls_assume(file_size >= 1 && file_size < ((size_t)1 << 47));
    try {
        kl::file_view v(path);
        CHECKM(!failed, "a failing system call is reported");
        CHECKM((size_t)v.get_bytes().size() == file_size, "the view is as long as the file");
        CHECKM((const void*)v.get_bytes().data() == mem, "the view shows the mapping");
        CHECKM(map_len == file_size, "the whole file is mapped");
        COVER("mapped");
    } catch (const std::system_error& e) {
        CHECKM(failed && e.code().value() == err, "the system's error code is reported");
        COVER("failed");
    }
    CHECKM(!fd_open && opens == closes && !mem && maps == unmaps, "nothing is left behind");
    return;
#endif
    file_size = kls::choose("size", B_LEN + 1);
    kls::sym_bytes(content, file_size, "content");
    bool threw = false;
    try {
        kl::file_view v(path);
        CHECKM(!failed, "a failing system call is reported");
        CHECKM(!fd_open || maps <= 1, "descriptor accounting");
        auto b = v.get_bytes();
        CHECKM((size_t)b.size() == file_size, "the view is as long as the file");
        unsigned diff = 0;
        for (size_t i = 0; i < file_size; ++i) diff |= (unsigned)((unsigned char)b[i] ^ content[i]);
        CHECKM(diff == 0, "the view shows the file's bytes");
        if (file_size) COVER("mapped");
        else COVER("empty");
        copies(v);
        if (file_size) {
            diff = 0;
            for (size_t i = 0; i < file_size; ++i) diff |= (unsigned)((unsigned char)v.get_bytes()[i] ^ content[i]);
            CHECKM(diff == 0, "the view stays valid for its whole life");
        }
    } catch (const std::system_error& e) {
        threw = true;
        CHECKM(failed, "an error is reported only when a system call failed");
        CHECKM(e.code().value() == err, "the system's error code is reported");
        COVER("failed");
    }
    CHECKM(threw == (bool)failed, "failure is reported exactly when a system call failed");
    CHECKM(!fd_open && opens == closes, "no descriptor is left open");
    CHECKM(!mem && maps == unmaps, "no mapping is left behind");
}
