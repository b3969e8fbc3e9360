SPECIFICATION Spec
CONSTANT MaxObjs = 1
INVARIANTS LastValid Known AnnexLower
PROPERTIES ObjsGrow OnlySetSelects
