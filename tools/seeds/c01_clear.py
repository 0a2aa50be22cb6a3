PROPERTY = "C01"
EDITS = [("planner/src/utils/frontier.h", "			m_vec.clear();\n			m_set.clear();", "			if (m_vec.empty())\n				m_set.clear();\n			m_vec.clear();")]
NEEDS = "clearing a list that is not empty and pushing the same keys again"
BREAKS = "the keys of a cleared list are still taken: pushes are refused and lookups find elements that are gone"
DEMO = r'''
#include "core/base.h"
#include "utils/frontier.h"
int main()
{
	Planner::Frontier<int> f;
	for (int i = 0; i < 5; i++)
		f.Push(i);
	f.Clear();
	return f.Push(3).second && !f.Find(2) ? 0 : 1;
}
'''
