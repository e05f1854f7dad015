/* common parts of the random search harnesses */
long vf_failin, vf_live, vf_failed;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static char hist[65536]; static size_t hl;
#define H(...) do { if (hl < sizeof hist - 256) hl += snprintf(hist + hl, 256, __VA_ARGS__); } while (0)
#define CHECK(c) do { if (!(c)) { printf("FAIL %s line %d\nhistory: %s\n", #c, __LINE__, hist); fflush(stdout); _Exit(1); } } while (0)
static void one(void);
#include <signal.h>
static void onsig(int s) { printf("FAIL signal %d\nhistory: %s\n", s, hist); fflush(stdout); _Exit(3); }
void __asan_on_error(void) { printf("FAIL memory error\nhistory: %s\n", hist); fflush(stdout); }
int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], 0, 10); int secs = atoi(argv[2]); time_t end = time(0) + secs; unsigned long n = 0;
	signal(SIGABRT, onsig); signal(SIGALRM, onsig);
	for (; time(0) < end; n++) { rs = (seed + 1) * 0x9E3779B97F4A7C15ull + n * 0xD1B54A32D192ED03ull; rnd(); rnd(); hl = 0; hist[0] = 0; vf_failin = 0; alarm(20); H("[%lu] ", n); one(); }
	printf("histories %lu\n", n); return 0;
}
