PROPERTY = "C02"
EDITS = [("planner/src/utils/node.h", "					m_children.erase(it);\n					return childScope;", "					*it = std::move(m_children.back());\n					m_children.pop_back();\n					return childScope;")]
NEEDS = "removing a child that is followed by at least two siblings"
BREAKS = "the remaining children change their order (and the last one is moved onto itself when it is the one removed)"
DEMO = r'''
#include "core/base.h"
#include "utils/node.h"
using namespace Planner;
int main()
{
	Node<int> root(0);
	Node<int>* k[4];
	for (int i = 0; i < 4; i++)
		k[i] = root.AddChild(makeScope<Node<int>>(i));
	auto out = root.RemoveChild(k[0]);
	auto& c = root.GetChildren();
	return c.size() == 3 && c[0].get() == k[1] && c[1].get() == k[2] && k[1]->GetNext() == k[2] ? 0 : 1;
}
'''
