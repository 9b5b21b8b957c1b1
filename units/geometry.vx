%unit geometry
%include p_core.vx
%include p_float.vx
%include geo_fns.vx
