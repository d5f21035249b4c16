SPECIFICATION Spec
CONSTANTS
    MaxLen = 2
    MaxQueries = 1
INVARIANTS UnionExact IntersectionExact DisjointExact DisjointIffEmpty CollectionExact
CHECK_DEADLOCK FALSE
