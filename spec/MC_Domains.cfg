SPECIFICATION Spec
INVARIANTS CodesMakeSense LabelingsAreBijections ExplicitLabeling AlphabetsMakeSense BoseIsLargest CyclicCofactor FieldHasNoDivisors LengthsFit LevelsInCells Emit
CHECK_DEADLOCK FALSE
