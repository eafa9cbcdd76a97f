// Linked with fast_ber_compiler: fixes the address space layout (VF_HEAP: octets to use up of the heap first), so that what
// depends on addresses can be repeated. The other addresses follow from the limit of the stack's size.
#include <cstdlib>
#include <sys/personality.h>
#include <unistd.h>

namespace
{
__attribute__((constructor(101))) void layout(int, char** argv, char**)
{
    const char* heap = getenv("VF_HEAP");
    if (!heap)
    {
        return;
    }
    const int now = personality(0xffffffff);
    if (now != -1 && !(now & ADDR_NO_RANDOMIZE) && !getenv("VF_AGAIN") && personality(now | ADDR_NO_RANDOMIZE) != -1)
    {
        setenv("VF_AGAIN", "1", 1);
        execv("/proc/self/exe", argv);
    }
    const size_t n = strtoul(heap, nullptr, 10);
    for (size_t i = 0; i < n % 64; i++)
    {
        *static_cast<volatile char*>(malloc(16 * (i % 7 + 1))) = 1;
    }
    *static_cast<volatile char*>(malloc(n * 16 + 1)) = 1;
}
} // namespace
