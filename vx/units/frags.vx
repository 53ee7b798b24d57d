// What the parts of a run are.
%use gtree.vx
%use editrun.vx
%use fragvoc.vx
