#include "common.h"
#include "core/base.h"
#include "utils/frontier.h"

struct Item {
	int key, prio;
};
struct Cmp {
	bool greater = false;
	bool operator()(const Item& a, const Item& b) const { return greater ? a.prio > b.prio : a.prio < b.prio; }
};
struct Hash {
	std::size_t operator()(const Item& a) const { return a.key % 3; }
};
struct Eq {
	bool operator()(const Item& a, const Item& b) const { return a.key == b.key; }
};

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 3000 || H::g_budget > 5); k++) {
		Cmp cmp;
		cmp.greater = H::Coin();
		Planner::Frontier<Item, Cmp, Hash, Eq> f(cmp, H::RandInt(1, 20), Hash(), Eq());
		std::map<int, int> model;   // key -> priority
		int keys = H::RandInt(1, 40), prios = H::RandInt(1, H::Coin() ? 4 : 40);
		double grow = H::Rand(0.3, 0.8);
		std::string log = cmp.greater ? "greater:" : "less:";
		for (int step = 0, n = H::RandInt(1, 80); step < n; step++) {
			Item e { H::RandInt(0, keys), H::RandInt(0, prios) };
			double op = H::Rand(0, 1);
			char what[60];
			const char* kind = op < grow ? "push" : op < grow + 0.1 ? "find" : op < grow + 0.12 ? "clear" : H::Coin(0.6) ? "remove" : "pop";
			snprintf(what, sizeof what, " %s(%d,%d)", kind, e.key, e.prio);
			log += what;
			H::Case(10, "%s", log.c_str());
			bool present = model.count(e.key);
			switch (kind[1]) {
			case 'u': {
				auto [p, ok] = f.Push(e);
				CHECK(ok == !present, "push", "a push is accepted or refused wrongly");
				if (!present)
					model[e.key] = e.prio;
				CHECK(p && p->key == e.key && p->prio == model[e.key], "push", "a push does not hand back the element");
				break;
			}
			case 'i': {
				auto* p = f.Find(e);
				CHECK((p != nullptr) == present && (!p || (p->key == e.key && p->prio == model[e.key])), "find", "an element is not found, or a wrong one");
				break;
			}
			case 'l':
				f.Clear();
				model.clear();
				break;
			case 'e':
				CHECK(f.Remove(e) == (present ? 1u : 0u), "remove", "a removal is reported wrongly");
				model.erase(e.key);
				break;
			default:
				if (model.empty())
					break;
				Item t = f.Top(), p = f.Pop();
				CHECK(t.key == p.key && t.prio == p.prio, "pop", "the popped element is not the top");
				CHECK(model.count(p.key) && model[p.key] == p.prio, "pop", "the popped element is not in the list");
				for (auto& [q, prio] : model)
					if (cmp(Item { p.key, p.prio }, Item { q, prio })) {
						CHECK(false, "pop", "an element beats the popped one");
						break;
					}
				model.erase(p.key);
			}
			CHECK(f.Size() == model.size() && f.Empty() == model.empty(), "size", "the size is not the number of elements");
			std::set<int> seen;
			const Item* prev = nullptr;
			bool order = true, content = true;
			for (auto& x : f) {
				order &= !prev || !cmp(x, *prev);
				content &= seen.insert(x.key).second && model.count(x.key) && model[x.key] == x.prio;
				prev = &x;
			}
			for (auto& [q, prio] : model) {
				auto* p = f.Find({ q, -1 });
				content &= p && p->prio == prio;
			}
			CHECK(order, "order", "the list is not in order");
			CHECK(content && seen.size() == model.size(), "content", "an element is lost, duplicated or misplaced");
			if (H::g_fails)
				return H::Done();
		}
	}
	return H::Done();
}
