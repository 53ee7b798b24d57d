// lib.rs: lengths.
%use prelude.vx
%file lib.rs
%item type Length
