CONSTANTS
  Tools = {"hover","symbols","definition","references","diagnostics","completion","set_file_content","search","semantic_search"}
  NeedsUri = {"hover","symbols","definition","references","diagnostics","completion","set_file_content"}
  NeedsOffset = {"hover","definition","references","completion"}
  NeedsContent = {"set_file_content"}
  NeedsQuery = {"search","semantic_search"}
  Searching = "works"
  MaxLines = 3
  Plain = {"initialize","nomethod","broken","notify","blank"}
  CallTools = {"hover"}
  Mode = "emit"
  Wait = 1
INIT Init
NEXT NextAll
CHECK_DEADLOCK FALSE
INVARIANTS Emit
