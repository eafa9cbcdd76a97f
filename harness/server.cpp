// Linked with fast_ber_compiler: before main, serves requests by letting forked children continue into main with the
// arguments the process was started with. One request: number of input files, then length and content of each
// (in0.asn, in1.asn, .. in the current directory); one reply: wait status, sizes of the three outputs, and the length and
// an excerpt of what was written to the error stream.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace
{
bool read_all(int fd, void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n > 0)
    {
        const ssize_t k = read(fd, c, n);
        if (k <= 0)
        {
            return false;
        }
        c += k;
        n -= static_cast<size_t>(k);
    }
    return true;
}

void write_all(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n > 0)
    {
        const ssize_t k = write(fd, c, n);
        if (k <= 0)
        {
            _exit(3);
        }
        c += k;
        n -= static_cast<size_t>(k);
    }
}

uint32_t size_of(const char* path)
{
    struct stat st;
    return stat(path, &st) == 0 ? static_cast<uint32_t>(st.st_size) : 0xffffffffu;
}

// A sanitizer's report, or the last messages
std::string excerpt(const char* path)
{
    std::string text;
    char        buffer[4096];
    const int   fd = open(path, O_RDONLY);
    ssize_t     k;
    while (fd >= 0 && text.size() < 200000 && (k = read(fd, buffer, sizeof buffer)) > 0)
    {
        text.append(buffer, static_cast<size_t>(k));
    }
    close(fd);
    for (const char* mark : {"ERROR: AddressSanitizer", "runtime error:", "terminate called", "Assertion"})
    {
        const size_t at = text.find(mark);
        if (at != std::string::npos)
        {
            const size_t line = text.rfind('\n', at);
            return text.substr(line == std::string::npos ? 0 : line + 1, 3000);
        }
    }
    return text.size() <= 400 ? text : text.substr(text.size() - 400);
}

__attribute__((constructor)) void serve()
{
    if (!getenv("VF_SERVER"))
    {
        return;
    }
    const char* outs[] = {"out.hpp", "out.fwd.hpp", "out.detail.hpp"};
    while (true)
    {
        uint32_t files;
        if (!read_all(0, &files, sizeof files))
        {
            _exit(0);
        }
        for (uint32_t i = 0; i < files; i++)
        {
            uint32_t n;
            if (!read_all(0, &n, sizeof n))
            {
                _exit(0);
            }
            std::vector<char> content(n + 1);
            if (!read_all(0, content.data(), n))
            {
                _exit(0);
            }
            const int fd = open(("in" + std::to_string(i) + ".asn").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            write_all(fd, content.data(), n);
            close(fd);
        }
        for (const char* out : outs)
        {
            unlink(out);
        }
        const pid_t pid = fork();
        if (pid == 0)
        {
            const int null = open("/dev/null", O_RDONLY);
            const int err  = open("err", O_RDWR | O_CREAT | O_TRUNC, 0644);
            dup2(null, 0);
            dup2(err, 1);
            dup2(err, 2);
            struct rlimit cpu = {10, 10}, core = {0, 0}, size = {64 << 20, 64 << 20};
            setrlimit(RLIMIT_CPU, &cpu);
            setrlimit(RLIMIT_CORE, &core);
            setrlimit(RLIMIT_FSIZE, &size);
            alarm(120);
            return;
        }
        int status = 0;
        waitpid(pid, &status, 0);
        uint32_t reply[5] = {static_cast<uint32_t>(status), size_of(outs[0]), size_of(outs[1]), size_of(outs[2]),
                             size_of("err")};
        write_all(1, reply, sizeof reply);
        const std::string text = excerpt("err");
        const uint32_t    n    = static_cast<uint32_t>(text.size());
        write_all(1, &n, sizeof n);
        write_all(1, text.data(), n);
    }
}
} // namespace
