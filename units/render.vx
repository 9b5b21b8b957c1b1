%unit render
%literals
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%import mir_fns.vx
%include p_svg.vx
%include ren_defs.vx
%include ren_spec.vx
%include ren_fns.vx
