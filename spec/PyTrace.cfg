SPECIFICATION TSpec
INVARIANTS BlockDiscipline GeneratorDiscipline CleanEnd HandledDiscipline
CHECK_DEADLOCK FALSE
