PROPERTY = "C02"
EDITS = [("planner/src/utils/node.h", "					bratScope->m_parent = nullptr;\n					if (adoptGrandchildren) {", "					if (adoptGrandchildren) {\n						bratScope->m_parent = nullptr;")]
NEEDS = "replacing a child without moving its own children, then asking the removed node about its parent or depth"
BREAKS = "a node handed out by a replacement still names its former parent"
DEMO = r'''
#include "core/base.h"
#include "utils/node.h"
using namespace Planner;
int main()
{
	Node<int> root(0);
	auto* a = root.AddChild(makeScope<Node<int>>(1));
	a->AddChild(makeScope<Node<int>>(2));
	auto out = root.ReplaceChild(a, makeScope<Node<int>>(3), false);
	return out->GetParent() == nullptr && out->GetDepth() == 0 && !out->IsDescendantOf(&root) ? 0 : 1;
}
'''
