PROPERTY = "C05"
EDITS = [("planner/src/utils/grid.cpp", "		if (right) {\n			neighbors.push_back({ r, c + 1 });\n			if (bottom)\n				neighbors.push_back({ r - 1, c + 1 });\n			if (top)",
          "		if (right) {\n			neighbors.push_back({ r, c + 1 });\n			if (bottom)\n				neighbors.push_back({ r - 1, c + 1 });\n			if (top && c + 2 < columns)")]
NEEDS = "a cell in the last but one column"
BREAKS = "one diagonal neighbour in the last column is missing from the neighbour list"
DEMO = r'''
#include "core/base.h"
#include "utils/grid.h"
#include <cstdio>
#include <set>
using namespace Planner;
int main()
{
	for (int rows = 1; rows < 6; rows++)
		for (int cols = 1; cols < 6; cols++)
			for (int r = 0; r < rows; r++)
				for (int c = 0; c < cols; c++) {
					int want = 0;
					for (int a = -1; a <= 1; a++)
						for (int b = -1; b <= 1; b++)
							want += (a || b) && r + a >= 0 && r + a < rows && c + b >= 0 && c + b < cols;
					std::set<std::pair<int, int>> s;
					for (auto& n : GridCellPosition(r, c).GetNeighbors(rows, cols))
						s.insert({ n.row, n.col });
					if ((int)s.size() != want) {
						printf("cell (%d,%d) of %dx%d has %zu neighbours, not %d\n", r, c, rows, cols, s.size(), want);
						return 1;
					}
				}
	return 0;
}
'''
