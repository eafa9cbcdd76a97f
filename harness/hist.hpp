// All operation sequences up to a depth over a system under test paired with a reference state.
// Sys: default constructible; static size_t nops(); static std::string name(size_t op); bool apply(size_t op) (false:
// the operation is not enabled in this state, the sequence is dropped); void check(const std::string& trace);
// std::string key() (distinct state).
#pragma once
#include "vf.hpp"

template <typename Sys>
void histories(const std::string& what, size_t depth)
{
    const size_t        n = Sys::nops();
    std::vector<size_t> seq;
    // breadth first in the length of the sequence: the shortest failing history is reported first
    for (size_t len = 0; len <= depth; len++)
    {
        seq.assign(len, 0);
        while (true)
        {
            if (run.next())
            {
                std::string trace = what;
                if (run.verbose())
                {
                    for (size_t o : seq)
                        trace += " ; " + Sys::name(o);
                    run.note(trace);
                }
                Sys  sys;
                bool ok = true;
                for (size_t o : seq)
                {
                    if (!sys.apply(o))
                    {
                        ok = false;
                        break;
                    }
                    run.transitions++;
                }
                if (ok)
                {
                    auto trace_of = [&] {
                        std::string t = what;
                        for (size_t o : seq)
                            t += " ; " + Sys::name(o);
                        return t;
                    };
                    sys.check(trace_of);
                    run.state(what + sys.key());
                    run.stat("histories", 1);
                    if (run.idx % 40009 == 17)
                        run.sample(trace_of());
                }
                else
                    run.stat("disabled_histories", 1);
            }
            size_t i = len;
            bool   more = false;
            while (i > 0)
            {
                --i;
                if (++seq[i] < n)
                {
                    more = true;
                    break;
                }
                seq[i] = 0;
            }
            if (!more)
                break;
        }
    }
}
