// run_tree.rs against its contracts.
%use leaflemmas.vx
%use treelemmas.vx
%use runtree.vx
%use runtreelemmas.vx
%use mergedellemmas.vx
