// Instantiates the templates that only the Cython layer instantiates, so that their
// bodies are present in the type-checked program the analyses look at.
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"

namespace dwave::optimization {
template ListNode* Graph::emplace_node<ListNode, long>(long&&);
template SizeNode* Graph::emplace_node<SizeNode, ArrayNode*>(ArrayNode*&&);
}  // namespace dwave::optimization
