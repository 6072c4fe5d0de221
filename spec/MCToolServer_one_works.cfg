CONSTANTS
  Tools = {"hover","symbols","definition","references","diagnostics","completion","set_file_content","search","semantic_search"}
  NeedsUri = {"hover","symbols","definition","references","diagnostics","completion","set_file_content"}
  NeedsOffset = {"hover","definition","references","completion"}
  NeedsContent = {"set_file_content"}
  NeedsQuery = {"search","semantic_search"}
  Searching = "works"
  MaxLines = 1
  Plain = {"initialize","list","unknown","nomethod","noise","broken","notify","response","blank"}
  CallTools = {"hover","symbols","definition","references","diagnostics","completion","set_file_content","search","semantic_search","nosuch",""}
  Mode = "emit"
  Wait = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
