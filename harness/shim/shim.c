#include "node.h"
int cmark_node_get_item_index(cmark_node *node){ if(!node) return 0; if(node->type==CMARK_NODE_ITEM) return node->as.list.start; return 0;}
