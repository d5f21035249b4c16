SPECIFICATION Spec
CONSTANTS
    MaxLen = 2
    MaxQueries = 2
INVARIANTS UnionExact IntersectionExact DisjointExact DisjointIffEmpty CollectionExact
CHECK_DEADLOCK FALSE
