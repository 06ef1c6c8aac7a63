// cost.cc - deterministic cost and memory balance of reading.
//
// Compiled with -fsanitize-coverage=trace-pc the repository's code calls
// __sanitizer_cov_trace_pc at every control-flow edge; that count is the work
// measure.  Allocations are counted by interposing malloc and friends.
//
//   cost [--break] [--dict DIC] < words
//      prints "C TAB word TAB steps TAB allocated-bytes TAB peak-bytes TAB edges"
//   cost --balance [--break] [--dict DIC] ROUNDS < words
//      reads all words ROUNDS times, judging that the number of live blocks
//      after each word equals the number before it (after one warm-up round)

#include "parser/parser.h"
#include "output/output-delim.h"
#include "output/output-gjson.h"
#include "output/output-json.h"
#include "output/output-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/sylout-thai.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <malloc.h>
#include <memory>
#include <string>
#include <vector>

static unsigned long steps_, allocated_, blocks_, live_, peak_;
static unsigned long stepLimit_ = ~0ul;
static char crumb_[4096];

extern "C" void __attribute__ ((no_sanitize_coverage, used))
__sanitizer_cov_trace_pc()
{
    if (++steps_ > stepLimit_) {
        fprintf (stdout, "L\t%s\t%lu\n", crumb_, stepLimit_);
        fflush (stdout);
        _Exit (5);
    }
}

extern "C" {
void* __libc_malloc (size_t);
void  __libc_free (void*);
void* __libc_calloc (size_t, size_t);
void* __libc_realloc (void*, size_t);

static inline void took (void* p) { if (p) { size_t n = malloc_usable_size (p); allocated_ += n; live_ += n; ++blocks_; if (live_ > peak_) peak_ = live_; } }
static inline void gave (void* p) { if (p) { live_ -= malloc_usable_size (p); --blocks_; } }

void* malloc (size_t n) { void* p = __libc_malloc (n); took (p); return p; }
void  free (void* p) { gave (p); __libc_free (p); }
void* calloc (size_t a, size_t b) { void* p = __libc_calloc (a, b); took (p); return p; }
void* realloc (void* q, size_t n) { gave (q); void* p = __libc_realloc (q, n); took (p); return p; }
}

using namespace std;

template<typename T> static unique_ptr<ISylOutput> mk() { return unique_ptr<ISylOutput> (new T()); }

int
main (int argc, char** argv)
{
    bool brk = false, balance = false;
    const char* dic = nullptr;
    int rounds = 3;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "--break") brk = true;
        else if (a == "--dict") dic = argv[++i];
        else if (a == "--limit") stepLimit_ = strtoul (argv[++i], nullptr, 10);
        else if (a == "--balance") { balance = true; rounds = atoi (argv[++i]); }
        else return 3;
    }
    unsigned long limit = stepLimit_;
    stepLimit_ = ~0ul;
    Parser parser (brk);
    if (dic && !parser.loadExceptDict (dic)) return 4;
    vector<string> words;
    for (string l; getline (cin, l); ) words.push_back (l);

    if (!balance) {
        for (auto& w : words) {
            strncpy (crumb_, w.c_str(), sizeof crumb_ - 1);
            unsigned long s0 = steps_, a0 = allocated_, l0 = live_;
            peak_ = live_;
            stepLimit_ = limit == ~0ul ? limit : steps_ + limit;
            unsigned long e = 0;
            {
                PronunDAG d = parser.parseWord (w);
                for (auto it = d.outBegin(); it != d.outEnd(); ++it) ++e;
            }
            unsigned long s1 = steps_, a1 = allocated_, p1 = peak_;
            stepLimit_ = ~0ul;
            cout << "C\t" << w << '\t' << s1 - s0 << '\t' << a1 - a0 << '\t' << p1 - l0 << '\t' << e << '\n';
        }
        cout << "DONE" << endl;
        return 0;
    }

    vector<unique_ptr<IOutput>> outs;
    outs.emplace_back (new DelimOutput (mk<ThaiSylOutput>(), '-'));
    outs.emplace_back (new DelimOutput (mk<PhoneticSylOutput>(), ' '));
    outs.emplace_back (new DelimOutput (mk<SoundexSylOutput>(), '-'));
    outs.emplace_back (new DelimOutput (mk<RawSylOutput>(), ','));
    outs.emplace_back (new RomanOutput());
    outs.emplace_back (new JsonOutput (mk<ThaiSylOutput>()));
    outs.emplace_back (new GroupedJsonOutput (mk<RawSylOutput>()));
    unsigned long checked = 0, nViol = 0, bytes = 0;
    long kept = 0;
    for (int r = 0; r <= rounds; ++r)
        for (auto& w : words) {
            unsigned long b0 = blocks_, l0 = live_;
            {
                PronunDAG d = parser.parseWord (w);
                for (auto& o : outs) bytes += o->output (d).size();
            }
            unsigned long b1 = blocks_, l1 = live_;
            if (r > 0) {
                ++checked;
                kept += (long) (l1 - l0);
                if ((b1 != b0 || l1 != l0) && nViol++ < 5)
                    cout << "V balance\t" << w << "\t" << (long) (b1 - b0) << " blocks, " << (long) (l1 - l0) << " bytes kept after the answer" << endl;
            }
        }
    cout << "S kept-bytes " << (kept > 0 ? kept : 0) << "\nS balance-checked " << checked << "\nS output-bytes " << bytes << "\nDONE" << endl;
    return 0;
}
