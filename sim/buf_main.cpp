// The circular buffer (C21) against a deque, with elements that account for their own lives, whose
// constructors can fail, and under address checking.
#include <deque>
#include <list>
#include <memory>
#include <new>
#include <unordered_set>

#include "common/circular_buffer.h"
#include "core.h"

using namespace dst;

namespace {

// Where live elements are, and what went wrong
std::unordered_set<const void*>* live;
std::string* wrong;
int fail_in = -1;  // the n-th construction from now on throws

void bad(const char* what)
{
    if (wrong->empty()) *wrong = what;
}

struct Boom {};

struct Item
{
    int64_t v;
    std::unique_ptr<int64_t> own;  // something to lose or release twice
    uint64_t canary;
    void born()
    {
        if (fail_in > 0 && --fail_in == 0) { fail_in = -1; throw Boom(); }
        if (!live->insert(this).second) bad("an element is constructed on top of a live one");
        canary = 0xC0FFEE0DDF00Dull ^ (uint64_t)(uintptr_t)this;
    }
    bool ok() const { return live->count(this) && canary == (0xC0FFEE0DDF00Dull ^ (uint64_t)(uintptr_t)this); }
    explicit Item(int64_t x) : v(x), own(new int64_t(x)) { born(); }
    Item(int64_t a, int64_t b) : v(a + b), own(new int64_t(a + b)) { born(); }
    Item(const Item& o) : v(o.v), own(new int64_t(o.v))
    {
        if (!o.ok()) bad("an element is copied from a dead one");
        born();
    }
    Item& operator=(const Item& o)
    {
        if (!live->count(this)) { bad("assignment to memory that holds no element"); return *this; }
        if (!o.ok()) bad("an element is assigned from a dead one");
        v = o.v;
        own.reset(new int64_t(o.v));
        return *this;
    }
    ~Item()
    {
        if (!live->erase(this)) { bad("an element that is not alive is destroyed"); own.release(); return; }
        if (own && *own != v) bad("an element lost its contents");
        canary = 0;
        v = -77;
    }
};

// an element that insists on its alignment
template <int A>
struct alignas(A) Aligned
{
    char x[A];
};
template <int A>
void alignment(Run& run, Rng r)
{
    using B = mc::CircularBuffer<Aligned<A>, 4>;
    // as unaligned as a buffer may legally be
    std::vector<char> mem(sizeof(B) + 256);
    const uintptr_t base = (reinterpret_cast<uintptr_t>(mem.data()) + 127) / 128 * 128;
    B* b = new (reinterpret_cast<void*>(base + (128 % alignof(B) == 0 && alignof(B) < 128 ? alignof(B) : 0))) B;
    for (int k = 0; k < 9; ++k)
    {
        r.chance(0.5) ? b->emplace_back() : b->emplace_front();
        for (auto& x : *b)
            if (reinterpret_cast<uintptr_t>(&x) % A) run.fail("alignment", "an element that needs an alignment of %d is placed at an offset of %d", A, (int)(reinterpret_cast<uintptr_t>(&x) % A));
    }
    b->~B();
}

template <int N>
struct Checker
{
    using Buf = mc::CircularBuffer<Item, N>;
    std::unique_ptr<Buf> buf;
    std::deque<int64_t> ref;
    Run& run;
    const Plan& plan;
    int wraps = 0, booms = 0;

    Checker(const Plan& p, Run& r) : run(r), plan(p) {}

    void verify(const char* after)
    {
        if (!wrong->empty()) run.fail("lifetime", "after %s: %s", after, wrong->c_str());
        const Buf& cb = *buf;
        if (live->size() != ref.size()) run.fail("lifetime", "after %s: %zu elements alive, %zu expected", after, live->size(), ref.size());
        if (cb.size() != ref.size()) run.fail("size", "after %s: size %zu, expected %zu", after, cb.size(), ref.size());
        if (cb.empty() != ref.empty()) run.fail("empty", "after %s: empty() is %d with %zu elements", after, cb.empty(), ref.size());
        if (cb.full() != (ref.size() == N - 1)) run.fail("full", "after %s: full() is %d with %zu of %d elements", after, cb.full(), ref.size(), N - 1);
        if (cb.capacity() != (size_t)N - 1 || cb.max_size() != (size_t)N - 1) run.fail("capacity", "capacity %zu", cb.capacity());
        if (!ref.empty())
        {
            if (!cb.front().ok() || cb.front().v != ref.front()) run.fail("front", "after %s: front is wrong", after);
            if (!cb.back().ok() || cb.back().v != ref.back()) run.fail("back", "after %s: back is wrong", after);
        }
        size_t k = 0;
        for (const Item& x : cb)
        {
            if (k >= ref.size()) run.fail("iteration", "after %s: iteration runs past the end", after);
            if (!x.ok() || x.v != ref[k]) run.fail("iteration", "after %s: element %zu of %zu is %lld instead of %lld", after, k, ref.size(), (long long)x.v, (long long)ref[k]);
            ++k;
        }
        if (k != ref.size()) run.fail("iteration", "after %s: iteration ends after %zu of %zu", after, k, ref.size());
        run.state(mix(mix(N, ref.size()), ref.empty() ? 0 : (uint64_t)(&cb.front() - cb.data())));
    }

    void iterators(Rng r)
    {
        const Buf& cb = *buf;
        const int n = (int)ref.size();
        for (int k = 0; k < 6 && n; ++k)
        {
            const int i = (int)r.below(n), j = (int)r.below(n + 1);
            if (cb[i].v != ref[i] || buf->at(i).v != ref[i] || (*buf)[i].v != ref[i] || cb.at(i).v != ref[i]) run.fail("index", "element %d is wrong", i);
            auto a = cb.begin() + i;
            auto b = cb.begin() + j;
            if (a->v != ref[i]) run.fail("iterator-plus", "begin + %d is wrong", i);
            // moves of more than a turn end where the remainder does
            const int turn = i + N * (int)r.below(3), back = n - i + N * (int)r.below(3);
            auto w = cb.begin();
            w += (size_t)turn;
            if (!(cb.begin() + (size_t)turn == a) || !(w == a)) run.fail("iterator-plus", "begin + %d (%d places) is wrong", turn, N);
            auto w2 = cb.end();
            w2 -= (size_t)back;
            if (!(cb.end() - (size_t)back == a) || !(w2 == a)) run.fail("iterator-minus", "end - %d (%d places) is wrong", back, N);
            auto m = buf->begin() + i;
            if (m->v != ref[i] || !(m == a) || !((buf->end() - (n - i)) == a)) run.fail("iterator-plus", "begin + %d is wrong", i);
            if (b - a != j - i || a - b != i - j) run.fail("iterator-difference", "difference of positions %d and %d is %d", j, i, b - a);
            if ((a < b) != (i < j) || (a > b) != (i > j) || (a <= b) != (i <= j) || (a >= b) != (i >= j) || (a == b) != (i == j) || (a != b) != (i != j))
                run.fail("iterator-order", "positions %d and %d compare wrongly", i, j);
            auto c = cb.end() - (n - i);
            if (!(c == a)) run.fail("iterator-minus", "end - %d is wrong", n - i);
            auto d = b;
            if (i > j || (i == j && r.chance(0.5))) d += (size_t)(i - j);
            else d -= (size_t)(j - i);
            if (!(d == a)) run.fail("iterator-compound", "moving from %d to %d is wrong", j, i);
            auto e = a;
            auto e2 = e++;
            if (!(e2 == a) || e - a != 1) run.fail("iterator-increment", "increment at %d is wrong", i);
            auto e3 = e--;
            (void)e3;
            if (!(e == a)) run.fail("iterator-decrement", "decrement at %d is wrong", i);
            if ((int)a.idx() != i) run.fail("iterator-index", "index of %d is %zu", i, a.idx());
        }
        int k = n;
        for (auto it = cb.end(); it != cb.begin();)
        {
            --it;
            --k;
            if (k < 0 || it->v != ref[k]) run.fail("backward", "backward iteration is wrong at %d", k);
        }
        if (k != 0) run.fail("backward", "backward iteration ends at %d", k);
    }

    void go()
    {
        buf.reset(new Buf);
        for (auto& o : plan.ops)
        {
            fail_in = -1;
            const bool full = ref.size() == N - 1;
            const std::string& n = o.name;
            if (n == "emplace_back" || n == "push_back" || n == "emplace_front" || n == "push_front")
            {
                const bool back = n.find("back") != std::string::npos, boom = o.i(1);
                const int64_t v = o.i(0);
                const int64_t self = o.i(2) && !ref.empty() ? o.i(2) % (int64_t)ref.size() : -1;
                bool threw = false;
                if (self >= 0)
                {
                    // insert a copy of an element of the buffer itself
                    const int64_t sv = ref[self];
                    run.fault("insert-own-element");
                    if (n == "emplace_back") buf->emplace_back((*buf)[(int)self]);
                    else if (n == "push_back") buf->push_back((*buf)[(int)self]);
                    else if (n == "emplace_front") buf->emplace_front((*buf)[(int)self]);
                    else buf->push_front((*buf)[(int)self]);
                    if (full) { back ? ref.pop_front() : ref.pop_back(); run.probe("displaced"); }
                    back ? ref.push_back(sv) : ref.push_front(sv);
                }
                else
                {
                    // (the value handed in is none of the buffer's elements)
                    std::unique_ptr<Item> arg;
                    if (n[0] == 'p') arg.reset(new Item(v));
                    if (boom) fail_in = 1;
                    try
                    {
                        if (n == "emplace_back") { if (v % 2) buf->emplace_back(v); else buf->emplace_back(v - 3, (int64_t)3); }
                        else if (n == "push_back") buf->push_back(*arg);
                        else if (n == "emplace_front") { if (v % 2) buf->emplace_front(v); else buf->emplace_front(v - 3, (int64_t)3); }
                        else buf->push_front(*arg);
                    }
                    catch (const Boom&) { threw = true; }
                    fail_in = -1;
                }
                if (self >= 0) {}
                else if (threw)
                {
                    // the element to be displaced may be gone already or not
                    run.fault("constructor-throws");
                    ++booms;
                    if (full && buf->size() == (size_t)N - 2) back ? ref.pop_front() : ref.pop_back();
                }
                else if (full) { run.probe("displaced"); back ? ref.pop_front() : ref.pop_back(); back ? ref.push_back(v) : ref.push_front(v); }
                else back ? ref.push_back(v) : ref.push_front(v);
            }
            else if (n == "pop_front") { if (ref.empty()) continue; buf->pop_front(); ref.pop_front(); }
            else if (n == "pop_back") { if (ref.empty()) continue; buf->pop_back(); ref.pop_back(); }
            else if (n == "clear") { buf->clear(); ref.clear(); }
            else if (n == "set")
            {
                if (ref.empty()) continue;
                const size_t i = o.u(0) % ref.size();
                (*buf)[(int)i] = Item(o.i(1));
                ref[i] = o.i(1);
            }
            else if (n == "copy")
            {
                // a copy lives its own life
                std::unique_ptr<Buf> b2;
                if (o.i(0) == 0) b2.reset(new Buf(*buf));
                else
                {
                    b2.reset(new Buf);
                    for (int k = 0; k < o.i(0); ++k) b2->emplace_back(k + 5);
                    Buf& r2 = *b2;
                    r2 = *buf;
                    r2 = r2;
                }
                if (live->size() != 2 * ref.size()) run.fail("lifetime", "after a copy of %zu elements %zu are alive", ref.size(), live->size());
                run.fault("copy");
                if (o.i(1)) { buf->clear(); for (int k = 0; k < 3; ++k) buf->emplace_back(k + 9); buf->clear(); }
                buf.swap(b2);
            }
            else if (n == "iterate") { iterators(Rng(o.u(0))); }
            else if (n == "destroy")
            {
                buf.reset();
                ref.clear();
                if (!wrong->empty()) run.fail("lifetime", "after the end of the buffer: %s", wrong->c_str());
                if (!live->empty()) run.fail("lifetime", "%zu elements outlive the buffer", live->size());
                buf.reset(new Buf);
            }
            run.ops();
            run.ev("%s %zu", n.c_str(), ref.size());
            if (ref.size() == N - 1) ++wraps;
            verify(n.c_str());
        }
        buf.reset();
        if (!wrong->empty()) run.fail("lifetime", "at the end: %s", wrong->c_str());
        if (!live->empty()) run.fail("lifetime", "%zu elements outlive the buffer", live->size());
        if (wraps > 1 && plan.ops.size() > 20) run.nontrivial();
    }
};

struct Buffer : Scenario
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("n", rng.range(0, 5));
        const int n = (int)rng.range(5, thorough ? 1500 : 400);
        // drift up, down or around
        const double grow = rng.uniform(0.3, 0.9), front = rng.chance(0.3) ? 0 : rng.uniform(0, 1), popfront = rng.uniform(0, 1), boom = rng.chance(0.4) ? 0.1 : 0, self = rng.chance(0.4) ? 0.1 : 0;
        for (int k = 0; k < n; ++k)
        {
            const double x = rng.uniform();
            if (x < 0.05) p.add("iterate", {(int64_t)(rng.u64() >> 8)});
            else if (x < 0.08) p.add("set", {(int64_t)rng.below(1000), rng.range(0, 1000000)});
            else if (x < 0.085) p.add("clear");
            else if (x < 0.09) p.add("destroy");
            else if (x < 0.10) p.add("copy", {rng.chance(0.5) ? 0 : rng.range(1, 120), (int64_t)rng.chance(0.5)});
            else if (rng.chance(grow))
            {
                const char* names[] = {"emplace_back", "push_back", "emplace_front", "push_front"};
                p.add(names[(rng.chance(front) ? 2 : 0) + rng.below(2)], {rng.range(0, 1000000), rng.chance(boom), rng.chance(self) ? rng.range(1, 1000000) : 0});
            }
            else p.add(rng.chance(popfront) ? "pop_front" : "pop_back");
        }
        p.add("iterate", {1});
        return p;
    }
    void execute(const Plan& plan, Run& run) override
    {
        live = new std::unordered_set<const void*>;
        wrong = new std::string;
        alignment<8>(run, Rng(1));
        alignment<32>(run, Rng((uint64_t)plan.ops.size()));
        alignment<64>(run, Rng((uint64_t)plan.ops.size() + 1));
        switch (plan.get("n"))
        {
        case 0: Checker<2>(plan, run).go(); break;
        case 1: Checker<3>(plan, run).go(); break;
        case 2: Checker<5>(plan, run).go(); break;
        case 3: Checker<8>(plan, run).go(); break;
        case 4: Checker<30>(plan, run).go(); break;
        default: Checker<100>(plan, run).go();
        }
    }
};
DST_SCENARIO("C21", Buffer)

}  // namespace
