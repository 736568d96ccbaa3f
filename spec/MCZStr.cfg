CONSTANT Full = FALSE
