// Collections that own objects.
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>

#include "kit.hpp"
#include "meta.hpp"
#include "utils.hpp"

using namespace kit;

static std::vector<long> dead;
struct Thing {
    int id;
    explicit Thing(int i) : id(i) {}
    virtual ~Thing() { dead.push_back(id); }
};
struct Other : Thing {
    std::vector<int> load = std::vector<int>(64);
    using Thing::Thing;
};
static std::optional<Collection<Thing>> C[2];
static std::map<long, std::unique_ptr<Thing>> mine;
static int made;

struct Callee {
    int calls = 0, base = 0;
    std::unique_ptr<int> kept;
    int run(int x, int& y, std::unique_ptr<int> p) {
        ++calls;
        kept = std::move(p);
        return base + x * 10 + y++;
    }
    int peek() const { return calls; }
};

static void show(Obj& o) {
    std::string c = "[", n = "[";
    for (int k = 0; k < 2; ++k) {
        std::vector<long> v;
        for (int i = 0; i < C[k]->num_objects(); ++i) {
            Thing* t = C[k]->get_object(i);
            v.push_back(t ? t->id : 0);
        }
        c += (k ? "," : "") + ints(v);
        n += (k ? "," : "") + std::to_string(C[k]->num_objects());
    }
    o.raw("c", c + "]").raw("n", n + "]").raw("dead", ints(dead)).put();
}

static bool op(const Args& a) {
    const std::string& o = a[0];
    Obj e(o);
    if (o == "invoke") {
        Callee c;
        int x = (int)I(a[1]), y = (int)I(a[2]), y2 = y;
        int r = invoke_method(c, &Callee::run, x, y2, std::make_unique<int>(5));
        e.n("x", x).n("y", y).n("r", r).n("y2", y2).n("calls", invoke_method(c, &Callee::peek)).n("moved", c.kept && *c.kept == 5).put();
        return true;
    }
    if (o == "new") {
        ++made;
        if (a[1] == "other") mine[made] = std::make_unique<Other>(made);
        else mine[made] = std::make_unique<Thing>(made);
        e.n("o", made);
    } else if (o == "drop") {
        e.n("o", I(a[1]));
        mine.erase(I(a[1]));
    } else {
        int k = (int)I(a[1]);
        if (k < 1 || k > 2) bad("collection");
        auto& c = *C[k - 1];
        long i = a.size() > 2 ? I(a[2]) : 0;
        e.n("k", k);
        if (o == "add") {
            std::unique_ptr<Thing> p;
            if (i) p = std::move(mine.at(i)), mine.erase(i);
            c.add_object(p);
            e.n("o", i).n("left", p != nullptr);
        } else if (o == "release") {
            Thing* t = c.release_object((int)i);
            e.n("i", i).n("o", t ? t->id : 0);
            if (t) mine[t->id].reset(t);
        } else if (o == "free") {
            c.free_object((int)i);
            e.n("i", i);
        } else if (o == "clear") c.clear();
        else if (o == "end") C[k - 1].reset(), C[k - 1].emplace();
        else if (o == "move") *C[2 - k] = std::move(c);
        else if (o == "out") {
            bool ex = false;
            try {
                if (a[3] == "get") c.get_object((int)i);
                else c.release_object((int)i);
            } catch (const std::out_of_range&) { ex = true; }
            e.n("ex", ex);
        } else return false;
    }
    show(e);
    return true;
}

int main(int c, char** v) {
    return kit::run(c, v, {[](const std::string&) {
                               for (auto& x : C) x.reset(), x.emplace();
                               mine.clear();
                               dead.clear();
                               made = 0;
                               header("{}");
                           },
                           op, [] {}});
}
