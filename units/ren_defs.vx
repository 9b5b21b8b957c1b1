%file layout
%struct RouteNodeId
%struct RouteEdgeId
%struct RouteNodeData
%struct RouteEdgeData
%type _RouteGraph
%struct RouteGraph
%verbatim
impl VxKey for TerminalPortId { type K = TerminalPortId; open spec fn vx_key(&self) -> TerminalPortId { *self } }
