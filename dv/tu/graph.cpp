#include "mlir/include/mlir/Support/LLVM.h"
#include "lib/Utils/Graph/Graph.h"
namespace mlir::heir::graph {
// the members of Graph<int> one by one: getLongestSourceToSinkPath does not instantiate
template void Graph<int>::addVertex(int);
template bool Graph<int>::addEdge(int, int, int);
template bool Graph<int>::addEdge(int, int);
template bool Graph<int>::hasEdge(int, int);
template bool Graph<int>::contains(int) const;
template bool Graph<int>::empty() const;
template const std::set<int>& Graph<int>::getVertices() const;
template const std::set<std::pair<int, int>>& Graph<int>::getEdges() const;
template std::vector<int> Graph<int>::edgesOutOf(int);
template std::vector<int> Graph<int>::edgesInto(int);
template bool Graph<int>::contractEdge(int, int, std::function<void(int&, const int&)>);
template std::vector<std::set<int>> Graph<int>::getStronglyConnectedComponents();
template void Graph<int>::condenseGraph(std::function<void(int&, const int&)>);
template FailureOr<std::vector<int>> Graph<int>::topologicalSort();
template FailureOr<std::vector<std::vector<int>>> Graph<int>::sortGraphByLevels();
template std::set<int> Graph<int>::getSources();
template std::set<int> Graph<int>::getSinks();
template uint64_t Graph<int>::getInDegree(int);
template uint64_t Graph<int>::getOutDegree(int);
template FailureOr<std::vector<int>> Graph<int>::getShortestPath(int, int);
template FailureOr<std::vector<int>> Graph<int>::getShortestPath(int, int, std::function<uint64_t(int, int)>);
template class UndirectedGraph<int>;
template class GreedyGraphColoring<int>;
}
