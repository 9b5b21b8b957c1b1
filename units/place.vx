%unit place
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%include lay_defs.vx
%verbatim
pub struct RouteGraph { pub x: u8 }
%struct SimpleLayoutEngine
%include place_fns.vx
