// C23: random trees, against the same tree kept as nested vectors.
#include <map>
#include <memory>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/types/Tree.hpp>
#include "vp.hpp"
using namespace vp;
using namespace eprosima::utils;
using Node_ = TreeNode<std::string>;

struct Model
{
    std::string info;
    std::vector<Model> b;
    unsigned depth() const { unsigned r = 0; for (auto& x : b) { r = std::max(r, x.depth() + 1); } return r; }
    std::string text() const { std::string r = info + "("; for (auto& x : b) { r += x.text(); } return r + ")"; }
    void below(std::map<std::string, int>& m) const { for (auto& x : b) { ++m[x.text()]; x.below(m); } }
};

static std::string text(const Node_& n)
{
    std::string r = n.info + "(";
    for (const auto& x : n.branches()) { r += text(x); }
    return r + ")";
}

static void compare(const Node_& n, const Model& m, const std::string& what)
{
    std::string t = m.text();
    check(text(n) == t, what + ": the tree is " + text(n) + " and not " + t);
    check(n.leaf() == m.b.empty(), what + ": leaf of " + t);
    check(n.depth() == m.depth(), what + cat(": depth ", n.depth(), " of ", t));
    std::map<std::string, int> want, got;
    m.below(want);
    for (const auto& x : n.all_nodes()) { ++got[text(x)]; check(x.depth() < m.depth(), what + ": a node as deep as the tree"); }
    check(want == got, what + ": all the nodes of " + t);
    check(text(n) == t, what + ": asking changed " + t);
}

// grows by adding in some order: leaves, copies, moved trees, itself, one of its branches
static void grow(Node_& n, Model& m, int size)
{
    while (size-- > 0)
    {
        std::string i(1, char('a' + rng.below(4)));
        switch (rng.below(8))
        {
            case 0: n.add_branch(i); m.b.push_back({i, {}}); break;
            case 1: { std::string j = i; n.add_branch(std::move(j)); m.b.push_back({i, {}}); break; }
            case 2: case 3: case 4: case 5:
            {
                Node_ c(i);
                Model k{i, {}};
                int s = rng.below(size + 1);
                size -= s;
                grow(c, k, s);
                m.b.push_back(k);
                if (rng.flip()) { n.add_branch(c); check(text(c) == k.text(), "adding a copy changed the tree copied"); }
                else { n.add_branch(std::move(c)); }
                break;
            }
            case 6: if (size > 6) { at("add_branch(*this) on " + text(n)); n.add_branch(n); m.b.push_back(Model(m)); size -= 6; } break;
            default:
                if (!m.b.empty())
                {
                    int k = rng.below(m.b.size());
                    auto it = n.branches().begin();
                    std::advance(it, k);
                    at(cat("add_branch(branch ", k, ") on ", text(n)));
                    n.add_branch(*it);
                    m.b.push_back(Model(m.b[k]));
                    size -= 3;
                }
        }
    }
}

int main(int argc, char** argv)
{
    start(argc, argv);
    do
    {
        Node_ n(std::string("r"));
        Model m{"r", {}};
        int steps = 1 + rng.below(4);
        for (int s = 0; s < steps; ++s)
        {
            grow(n, m, rng.below(9));
            compare(n, m, "tree");
        }
        Node_ c(n);
        compare(c, m, "copy");
        c.add_branch(std::string("z"));
        compare(n, m, "tree with a copy changed");
        if (m.depth() > 2) { sample(m.text() + cat(" depth ", n.depth())); }
        // a path
        unsigned d = rng.below(40);
        Node_ p(std::string("p"));
        for (unsigned i = 0; i < d; ++i) { Node_ q(std::string("q")); q.add_branch(std::move(p)); p = std::move(q); }
        check(p.depth() == d && p.all_nodes().size() == d, cat("a path of ", d, " nodes below: depth ", p.depth()));
    } while (more());
    return finish();
}
