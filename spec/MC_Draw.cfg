SPECIFICATION Spec
CONSTANTS
  Depth0 = 3
  Gen = FALSE
CONSTRAINT Bound
INVARIANTS ColoursTellRoles StylesAgree LabelsAgree
PROPERTY OnlyTheEdited
CHECK_DEADLOCK FALSE
