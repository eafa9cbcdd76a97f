// Exploration framework shared by all C++ explorers in /verif/harness.
//
// An explorer enumerates a finite space of cases in a fixed order. Every case has an index. A run takes
//   --shard I --nshards N   explore the cases whose index % N == I
//   --tier quick|thorough   which bounds to use
//   --only K                run only case K, verbosely (replay)
//   --skip K1,K2            leave these cases out (they crashed; they have been reported)
// The index of the running case is kept in a shared memory file ($VF_STATUS), so that the driver can name and replay
// the case that crashed or hung the process. Results go to stdout as tab separated records:
//   VIOL idx key detail | STAT name value | SAMPLE text | DONE
#pragma once
#include <algorithm>
#include <array>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include "absl/types/span.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define VF_ASAN 1
#endif
#endif

namespace vf
{
using Bytes = std::vector<uint8_t>;

inline std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (size_t i = 0; i < n && i < 600; i++)
    {
        if (i)
            s += ' ';
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    if (n > 600)
        s += " ...(" + std::to_string(n) + " bytes)";
    return s;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline std::string hex(absl::Span<const uint8_t> b) { return hex(b.data(), b.size()); }

struct Status
{
    volatile uint64_t idx;
    volatile uint64_t active;
};

class Run
{
  public:
    uint64_t           shard = 0, nshards = 1;
    bool               thorough = false;
    int64_t            only     = -1;
    std::set<uint64_t> skip;
    std::string        filter;

    uint64_t idx        = UINT64_MAX; // index of current case
    uint64_t executed   = 0;          // cases executed
    uint64_t transitions = 0;         // operations executed on the real code
    uint64_t compared   = 0;          // comparisons of real code against the reference
    uint64_t nviol      = 0;

    void init(int argc, char** argv)
    {
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto        v = [&] { return std::string(argv[++i]); };
            if (a == "--shard")
                shard = std::stoull(v());
            else if (a == "--nshards")
                nshards = std::stoull(v());
            else if (a == "--tier")
                thorough = v() == "thorough";
            else if (a == "--only")
                only = static_cast<int64_t>(std::stoull(v()));
            else if (a == "--filter")
                filter = v();
            else if (a == "--skip")
            {
                std::stringstream ss(v());
                std::string       x;
                while (std::getline(ss, x, ','))
                    if (!x.empty())
                        skip.insert(std::stoull(x));
            }
        }
        const char* f = getenv("VF_STATUS");
        if (f)
        {
            int fd = open(f, O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0)
            {
                void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    m_status = static_cast<Status*>(p);
            }
        }
        if (!m_status)
            m_status = new Status{};
        m_status->active = 0;
        std::cerr.rdbuf(nullptr); // the library reports decode errors there
        hang_init();
    }

    // Start the next case. Returns whether this process should execute it.
    bool next()
    {
        ++idx;
        if (only >= 0)
        {
            if (static_cast<int64_t>(idx) != only)
                return false;
        }
        else if (idx % nshards != shard)
            return false;
        if (!skip.empty() && skip.count(idx))
            return false;
        m_status->idx    = idx;
        m_status->active = 1;
        ++executed;
        return true;
    }
    // a block of n cases nobody in this shard wants (used to skip subtrees cheaply)
    bool verbose() const { return only >= 0; }

    void note(const std::string& s)
    {
        if (verbose())
        {
            printf("NOTE\t%s\n", s.c_str());
            fflush(stdout);
        }
    }
    void fail(const std::string& key, const std::string& detail)
    {
        ++nviol;
        auto& c = m_per_key[key];
        if (++c > 40 && only < 0)
            return;
        std::string d = detail;
        for (char& ch : d)
            if (ch == '\n' || ch == '\t')
                ch = ' ';
        printf("VIOL\t%" PRIu64 "\t%s\t%s\n", idx, key.c_str(), d.c_str());
        fflush(stdout);
    }
    void sample(const std::string& s)
    {
        if (m_samples < 6)
        {
            ++m_samples;
            std::string d = s;
            for (char& ch : d)
                if (ch == '\n' || ch == '\t')
                    ch = ' ';
            printf("SAMPLE\t%s\n", d.c_str());
        }
    }
    void state(uint64_t h)
    {
        if (m_states.size() < 3000000)
            m_states.insert(h);
        else
            m_state_overflow = true;
    }
    void state(const std::string& s) { state(std::hash<std::string>()(s)); }
    void stat(const std::string& k, uint64_t v) { m_stats[k] += v; }

    int finish()
    {
        m_status->active = 0;
        for (auto& kv : m_stats)
            printf("STAT\t%s\t%" PRIu64 "\n", kv.first.c_str(), kv.second);
        printf("STAT\texecuted\t%" PRIu64 "\nSTAT\ttransitions\t%" PRIu64 "\nSTAT\tcompared\t%" PRIu64
               "\nSTAT\tviolations\t%" PRIu64 "\nTOTAL\t%" PRIu64 "\n",
               executed, transitions, compared, nviol, idx + 1);
        printf("STAT\tstate_overflow\t%d\n", m_state_overflow ? 1 : 0);
        const char* f = getenv("VF_STATES");
        if (f && only < 0)
        {
            FILE* o = fopen(f, "wb");
            for (uint64_t h : m_states)
                fwrite(&h, 8, 1, o);
            fclose(o);
        }
        printf("DONE\n");
        fflush(stdout);
        return 0;
    }

  private:
    static void on_alarm(int)
    {
        // a case running for two consecutive ticks (>= 10 s of CPU) is a hang
        static uint64_t last = UINT64_MAX;
        static int      same = 0;
        Status*         s    = instance()->m_status;
        if (s->active && s->idx == last)
        {
            if (++same >= 2)
            {
                const char m[] = "HANG\n";
                (void)!write(1, m, sizeof(m) - 1);
                _exit(97);
            }
        }
        else
            same = 0;
        last = s->idx;
    }
    static Run*& instance()
    {
        static Run* r = nullptr;
        return r;
    }
    void hang_init()
    {
        instance() = this;
        signal(SIGVTALRM, on_alarm);
        itimerval t{};
        t.it_interval.tv_sec = 8;
        t.it_value.tv_sec    = 8;
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    Status*                         m_status = nullptr;
    std::map<std::string, uint64_t> m_per_key;
    std::map<std::string, uint64_t> m_stats;
    std::unordered_set<uint64_t>    m_states;
    bool                            m_state_overflow = false;
    int                             m_samples        = 0;
};

// An exactly sized heap block for every length: any access outside [0, len) is reported by the sanitizer.
class Exact
{
  public:
    uint8_t* get(size_t n)
    {
        auto it = m_blocks.find(n);
        if (it == m_blocks.end())
            it = m_blocks.emplace(n, std::unique_ptr<uint8_t[]>(new uint8_t[n])).first;
        return it->second.get();
    }
    absl::Span<const uint8_t> put(const uint8_t* p, size_t n)
    {
        uint8_t* b = get(n);
        if (n)
            memcpy(b, p, n);
        return absl::Span<const uint8_t>(b, n);
    }
    absl::Span<const uint8_t> put(const Bytes& x) { return put(x.data(), x.size()); }
    absl::Span<uint8_t>       fill(size_t n, uint8_t v)
    {
        uint8_t* b = get(n);
        if (n)
            memset(b, v, n);
        return absl::Span<uint8_t>(b, n);
    }

  private:
    std::map<size_t, std::unique_ptr<uint8_t[]>> m_blocks;
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i++)
    {
        h ^= b[i];
        h *= 1099511628211ull;
    }
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    return h;
}
inline uint64_t hash_bytes(const Bytes& b, uint64_t h = 1469598103934665603ull) { return hash_bytes(b.data(), b.size(), h); }

// all strings over an alphabet, lengths lo..hi, shortest first; f(bytes) returns false to stop
template <typename F>
void for_strings(const Bytes& alphabet, size_t lo, size_t hi, F f)
{
    for (size_t n = lo; n <= hi; n++)
    {
        Bytes              s(n, alphabet[0]);
        std::vector<size_t> d(n, 0);
        while (true)
        {
            f(s);
            size_t i = n;
            while (i > 0)
            {
                --i;
                if (++d[i] < alphabet.size())
                {
                    s[i] = alphabet[d[i]];
                    break;
                }
                d[i] = 0;
                s[i] = alphabet[0];
                if (i == 0)
                    goto next;
            }
            if (n == 0)
                break;
            continue;
        next:
            break;
        }
    }
}
inline Bytes all_bytes()
{
    Bytes b(256);
    for (int i = 0; i < 256; i++)
        b[i] = static_cast<uint8_t>(i);
    return b;
}
} // namespace vf

inline vf::Run run;
