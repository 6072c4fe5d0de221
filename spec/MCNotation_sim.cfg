CONSTANTS
  Steps = 14
  MinSteps = 5
  Leaves = {"nil","line","soft_line","soft_line_space","hard_line"}
  TextWays = {"call","nil","line","soft","hard","own","format","slice","deref","plus","cast","if","match","block","closure","field","name","string","option","boxed","list","deep","none","empty","parts"}
  HeldWays = {"macro","groups","indents","joins","group","groupref","indent","twice","if","match","block","move","ref","some","box","newtype","named","generic","where","pair","unit","framed","sides","tuple","variant","quiet","quietnamed","plain","bracketed","bracketednamed","fixed","whole"}
  JoinWays = {"vec","array","ref","iter","map","if"}
  Styles = {"brackets","trailing","bare"}
  MaxArity = 4
  Width = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Emit
