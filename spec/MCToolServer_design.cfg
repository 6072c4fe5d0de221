CONSTANTS
  Tools = {"hover","symbols","definition","references","diagnostics","completion","set_file_content","search","semantic_search"}
  NeedsUri = {"hover","symbols","definition","references","diagnostics","completion","set_file_content"}
  NeedsOffset = {"hover","definition","references","completion"}
  NeedsContent = {"set_file_content"}
  NeedsQuery = {"search","semantic_search"}
  Searching = "works"
  MaxLines = 3
  Plain = {"initialize","list","unknown","nomethod","noise","broken","notify","response","blank"}
  CallTools = {"hover","nosuch","search"}
  Mode = "check"
  Wait = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OneAnswer InOrder
VIEW DesignView
