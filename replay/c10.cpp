#include "vp.hpp"
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <set>
using namespace eprosima::utils;
using namespace vp;

struct Elem { int dirty = 0; static std::multiset<Elem*> dead; static long alive; Elem() { ++alive; } ~Elem() { --alive; } };
long Elem::alive = 0;
static unsigned created = 0;
static long fails_in = -1;          // the creations until one fails (never when negative)
struct CannotCreate {};

struct Pool : public UnboundedPool<Elem>
{
    Pool(PoolConfiguration c) : UnboundedPool<Elem>(c) { initialize_vector_(); }
    Elem* new_element_() override { if (fails_in >= 0 && fails_in-- == 0) { throw CannotCreate(); } ++created; return new Elem(); }
    void reset_element_(Elem* e) override { e->dirty = 0; }
    // the number of free elements, where it can be seen
    template<class P> static auto free_of(const P& p, size_t, int) -> decltype(size_t(p.elements_.size())) { return p.elements_.size(); }
    template<class P> static size_t free_of(const P&, size_t otherwise, long) { return otherwise; }
    size_t free(size_t otherwise) const { return free_of(*this, otherwise, 0); }
};

static PoolConfiguration configuration(unsigned initial, unsigned batch)
{
    PoolConfiguration c;
    c.initial_size = initial;
    c.batch_size = batch;
    return c;
}

static void history(unsigned initial, unsigned batch)
{
    std::string w = cat("pool(", initial, ", batch ", batch, ")");
    at(w);
    created = 0;
    long before = Elem::alive;
    if (batch == 0)
    {
        try { Pool p(configuration(initial, batch)); fail(w + " is accepted"); }
        catch (const InitializationException&) {}
        return;
    }
    std::set<Elem*> out, seen;
    {
        Pool pool(configuration(initial, batch));
        check(created == initial, w + cat(": creates ", created, " elements at first"));
        for (unsigned i = 0; i < 60; ++i)
        {
            if (rng.below(5) < 3)
            {
                Elem* e = nullptr;
                unsigned was = created;
                size_t freed = was - out.size();
                at(w + cat(" loan ", i));
                fails_in = batch < 100 && rng.below(6) == 0 ? long(rng.below(batch)) : -1;
                bool failed = false;
                try { check(pool.loan(e), w + ": a loan fails"); }
                catch (const CannotCreate&) { failed = true; }
                fails_in = -1;
                if (failed)
                {
                    check(pool.free(created - out.size()) + out.size() == created, w + cat(" step ", i, ": an element is lost when one cannot be created"));
                    continue;
                }
                if (!e) { fail(w + ": loans nothing"); return; }
                check(!out.count(e), w + cat(" loan ", i, ": element already on loan"));
                check(e->dirty == 0, w + cat(" loan ", i, ": element not reset"));
                check(created - was == (freed ? 0 : batch), w + cat(" loan ", i, ": creates ", created - was, " with ", freed, " free"));
                if (out.count(e)) return;
                out.insert(e); seen.insert(e); e->dirty = 1;
            }
            else if (!out.empty())
            {
                auto it = out.begin();
                std::advance(it, rng.below(out.size()));
                Elem* e = *it;
                at(w + cat(" return_loan ", i));
                check(pool.return_loan(e), w + ": return fails");
                out.erase(it);
            }
            else
            {
                Elem x;
                x.dirty = 0;
                size_t n = pool.free(0);
                at(w + cat(" return_loan with nothing on loan ", i));
                try { pool.return_loan(&x); fail(w + cat(" step ", i, ": returning when nothing is on loan is accepted")); return; }
                catch (const InconsistencyException&) { check(pool.free(0) == n, w + ": changed by a refused return"); }
            }
            check(pool.free(created - out.size()) + out.size() == created, w + cat(" step ", i, ": an element is lost or counted twice"));
        }
        while (!out.empty() && rng.below(4)) { pool.return_loan(*out.begin()); out.erase(out.begin()); }
        at(w + " destruction");
    }
    check(Elem::alive - before == long(out.size()), w + cat(": ", Elem::alive - before, " elements alive after the pool, ", out.size(), " on loan"));
    for (Elem* e : out) { delete e; }
}

int main()
{
    start();
    sample("random sequences of loans and returns for all initial sizes and batches up to 7 and some large ones");
    do
    {
        for (unsigned i = 0; i < 8; ++i) { for (unsigned b = 0; b < 8; ++b) { history(i, b); } }
        history(100, 37); history(0, 1000);
    } while (more());
    return finish();
}
