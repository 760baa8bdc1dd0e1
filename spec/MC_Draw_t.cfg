SPECIFICATION Spec
CONSTANTS
  Depth0 = 5
  Gen = FALSE
CONSTRAINT Bound
INVARIANTS ColoursTellRoles StylesAgree LabelsAgree
PROPERTY OnlyTheEdited
CHECK_DEADLOCK FALSE
