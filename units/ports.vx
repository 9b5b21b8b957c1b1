%unit ports
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%import lay_defs.vx
%include port_defs.vx
%verbatim
pub struct RouteGraph { pub x: u8 }
%struct SimpleLayoutEngine
%include port_fns.vx
