%unit mir
%include p_core.vx
%include p_float.vx
%include p_graph.vx
%import geo_fns.vx
%include mir_fns.vx
