## <Tolerances as Default>::default @ipm-ocl ipm_ocl
return Tolerances{}
return.dual_feasibility 1e-08
return.optimality 1e-08
return.primal_feasibility 1e-08
## SparseMatrixBuffers<T>::from_sparse_matrix
build(len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_WRITE), list(elem(col_indices(p0)))), len(col_indices(p0))))
build(len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_WRITE), list(elem(row_offsets(p0)))), len(row_offsets(p0))))
build(len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), values(p0)), len(values(p0))))
builder()
copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_WRITE), list(elem(col_indices(p0))))
copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_WRITE), list(elem(row_offsets(p0))))
copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), values(p0))
flags(queue(builder''(), p1), ocl_core::MEM_READ_WRITE)
flags(queue(builder'(), p1), ocl_core::MEM_READ_WRITE)
flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY)
len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_WRITE), list(elem(col_indices(p0)))), len(col_indices(p0)))
len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_WRITE), list(elem(row_offsets(p0)))), len(row_offsets(p0)))
len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), values(p0)), len(values(p0)))
queue(builder''(), p1)
queue(builder'(), p1)
queue(builder(), p1)
return SparseMatrixBuffers{}
return.col_indices build(len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_WRITE), list(elem(col_indices(p0)))), len(col_indices(p0))))
return.row_offsets build(len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_WRITE), list(elem(row_offsets(p0)))), len(row_offsets(p0))))
return.values build(len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), values(p0)), len(values(p0))))
## SparseNormalCholeskyClBuffers::from_indices
build(len(copy_host_slice(flags(queue(builder''''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltmap), len(p0.ltmap)))
build(len(copy_host_slice(flags(queue(builder'''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindices), len(p0.ltindices)))
build(len(copy_host_slice(flags(queue(builder''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindptr), len(p0.ltindptr)))
build(len(copy_host_slice(flags(queue(builder'''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindices), len(p0.lindices)))
build(len(copy_host_slice(flags(queue(builder''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldiag_indptr), len(p0.ldiag_indptr)))
build(len(copy_host_slice(flags(queue(builder'''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindptr), len(p0.lindptr)))
build(len(copy_host_slice(flags(queue(builder''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_j), len(p0.ldecomp_indptr_j)))
build(len(copy_host_slice(flags(queue(builder'''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_i), len(p0.ldecomp_indptr_i)))
build(len(copy_host_slice(flags(queue(builder''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr), len(p0.ldecomp_indptr)))
build(len(copy_host_slice(flags(queue(builder'''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indices), len(p0.anorm_indices)))
build(len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_j), len(p0.anorm_indptr_j)))
build(len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_i), len(p0.anorm_indptr_i)))
build(len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr), len(p0.anorm_indptr)))
builder()
copy_host_slice(flags(queue(builder''''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltmap)
copy_host_slice(flags(queue(builder'''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindices)
copy_host_slice(flags(queue(builder''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindptr)
copy_host_slice(flags(queue(builder'''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindices)
copy_host_slice(flags(queue(builder''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldiag_indptr)
copy_host_slice(flags(queue(builder'''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindptr)
copy_host_slice(flags(queue(builder''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_j)
copy_host_slice(flags(queue(builder'''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_i)
copy_host_slice(flags(queue(builder''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr)
copy_host_slice(flags(queue(builder'''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indices)
copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_j)
copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_i)
copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr)
flags(queue(builder''''''''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'''''''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder''''''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'''''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder''''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder''''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder''''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder''(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder'(), p1), ocl_core::MEM_READ_ONLY)
flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY)
len(copy_host_slice(flags(queue(builder''''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltmap), len(p0.ltmap))
len(copy_host_slice(flags(queue(builder'''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindices), len(p0.ltindices))
len(copy_host_slice(flags(queue(builder''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindptr), len(p0.ltindptr))
len(copy_host_slice(flags(queue(builder'''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindices), len(p0.lindices))
len(copy_host_slice(flags(queue(builder''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldiag_indptr), len(p0.ldiag_indptr))
len(copy_host_slice(flags(queue(builder'''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindptr), len(p0.lindptr))
len(copy_host_slice(flags(queue(builder''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_j), len(p0.ldecomp_indptr_j))
len(copy_host_slice(flags(queue(builder'''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_i), len(p0.ldecomp_indptr_i))
len(copy_host_slice(flags(queue(builder''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr), len(p0.ldecomp_indptr))
len(copy_host_slice(flags(queue(builder'''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indices), len(p0.anorm_indices))
len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_j), len(p0.anorm_indptr_j))
len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_i), len(p0.anorm_indptr_i))
len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr), len(p0.anorm_indptr))
queue(builder''''''''''''(), p1)
queue(builder'''''''''''(), p1)
queue(builder''''''''''(), p1)
queue(builder'''''''''(), p1)
queue(builder''''''''(), p1)
queue(builder'''''''(), p1)
queue(builder''''''(), p1)
queue(builder'''''(), p1)
queue(builder''''(), p1)
queue(builder'''(), p1)
queue(builder''(), p1)
queue(builder'(), p1)
queue(builder(), p1)
return SparseNormalCholeskyClBuffers{}
return.anorm_indices build(len(copy_host_slice(flags(queue(builder'''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indices), len(p0.anorm_indices)))
return.anorm_indptr build(len(copy_host_slice(flags(queue(builder(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr), len(p0.anorm_indptr)))
return.anorm_indptr_i build(len(copy_host_slice(flags(queue(builder'(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_i), len(p0.anorm_indptr_i)))
return.anorm_indptr_j build(len(copy_host_slice(flags(queue(builder''(), p1), ocl_core::MEM_READ_ONLY), p0.anorm_indptr_j), len(p0.anorm_indptr_j)))
return.ldecomp_indptr build(len(copy_host_slice(flags(queue(builder''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr), len(p0.ldecomp_indptr)))
return.ldecomp_indptr_i build(len(copy_host_slice(flags(queue(builder'''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_i), len(p0.ldecomp_indptr_i)))
return.ldecomp_indptr_j build(len(copy_host_slice(flags(queue(builder''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldecomp_indptr_j), len(p0.ldecomp_indptr_j)))
return.ldiag_indptr build(len(copy_host_slice(flags(queue(builder''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ldiag_indptr), len(p0.ldiag_indptr)))
return.lindices build(len(copy_host_slice(flags(queue(builder'''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindices), len(p0.lindices)))
return.lindptr build(len(copy_host_slice(flags(queue(builder'''''''(), p1), ocl_core::MEM_READ_ONLY), p0.lindptr), len(p0.lindptr)))
return.ltindices build(len(copy_host_slice(flags(queue(builder'''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindices), len(p0.ltindices)))
return.ltindptr build(len(copy_host_slice(flags(queue(builder''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltindptr), len(p0.ltindptr)))
return.ltmap build(len(copy_host_slice(flags(queue(builder''''''''''''(), p1), ocl_core::MEM_READ_ONLY), p0.ltmap), len(p0.ltmap)))
## PathBuffers<T>::new
build(len(flags(queue(builder'''(), p3), ocl_core::MEM_READ_WRITE), p0*p2))
build(len(flags(queue(builder''(), p3), ocl_core::MEM_READ_WRITE), p0*p2))
build(len(flags(queue(builder'(), p3), ocl_core::MEM_READ_WRITE), p1*p2))
build(len(flags(queue(builder(), p3), ocl_core::MEM_READ_WRITE), p1*p2))
builder()
flags(queue(builder'''(), p3), ocl_core::MEM_READ_WRITE)
flags(queue(builder''(), p3), ocl_core::MEM_READ_WRITE)
flags(queue(builder'(), p3), ocl_core::MEM_READ_WRITE)
flags(queue(builder(), p3), ocl_core::MEM_READ_WRITE)
len(flags(queue(builder'''(), p3), ocl_core::MEM_READ_WRITE), p0*p2)
len(flags(queue(builder''(), p3), ocl_core::MEM_READ_WRITE), p0*p2)
len(flags(queue(builder'(), p3), ocl_core::MEM_READ_WRITE), p1*p2)
len(flags(queue(builder(), p3), ocl_core::MEM_READ_WRITE), p1*p2)
queue(builder'''(), p3)
queue(builder''(), p3)
queue(builder'(), p3)
queue(builder(), p3)
return PathBuffers{}
return.w build(len(flags(queue(builder'''(), p3), ocl_core::MEM_READ_WRITE), p0*p2))
return.x build(len(flags(queue(builder(), p3), ocl_core::MEM_READ_WRITE), p1*p2))
return.y build(len(flags(queue(builder''(), p3), ocl_core::MEM_READ_WRITE), p0*p2))
return.z build(len(flags(queue(builder'(), p3), ocl_core::MEM_READ_WRITE), p1*p2))
## PathFollowingDirectClBuffers<T>::from_data
build(len(flags(queue(builder'''''(), p2), ocl_core::MEM_READ_WRITE), p1))
build(len(flags(queue(builder''''(), p2), ocl_core::MEM_READ_WRITE), nrows(p0)*p1))
build(len(flags(queue(builder'''(), p2), ocl_core::MEM_READ_WRITE), ncols(p0)*p1))
build(len(flags(queue(builder''(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), ncols(p0)*p1))
build(len(flags(queue(builder'(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), nrows(p0)*p1))
build(len(flags(queue(builder(), p2), ocl_core::MEM_READ_WRITE), len(from_matrix(p0).lindices)*p1))
builder()
flags(queue(builder'''''(), p2), ocl_core::MEM_READ_WRITE)
flags(queue(builder''''(), p2), ocl_core::MEM_READ_WRITE)
flags(queue(builder'''(), p2), ocl_core::MEM_READ_WRITE)
flags(queue(builder''(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY))
flags(queue(builder'(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY))
flags(queue(builder(), p2), ocl_core::MEM_READ_WRITE)
len(flags(queue(builder'''''(), p2), ocl_core::MEM_READ_WRITE), p1)
len(flags(queue(builder''''(), p2), ocl_core::MEM_READ_WRITE), nrows(p0)*p1)
len(flags(queue(builder'''(), p2), ocl_core::MEM_READ_WRITE), ncols(p0)*p1)
len(flags(queue(builder''(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), ncols(p0)*p1)
len(flags(queue(builder'(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), nrows(p0)*p1)
len(flags(queue(builder(), p2), ocl_core::MEM_READ_WRITE), len(from_matrix(p0).lindices)*p1)
push(from_matrix(p0).ldecomp_indptr_i, 0)
    Lt(len(from_matrix(p0).ldecomp_indptr_i), 1)
push(from_matrix(p0).ldecomp_indptr_j, 0)
    Lt(len(from_matrix(p0).ldecomp_indptr_j), 1)
queue(builder'''''(), p2)
queue(builder''''(), p2)
queue(builder'''(), p2)
queue(builder''(), p2)
queue(builder'(), p2)
queue(builder(), p2)
return PathFollowingDirectClBuffers{}
return.a_buffers from_sparse_matrix(p0, p2)
return.at_buffers from_sparse_matrix(transpose(p0), p2)
return.b_buffer build(len(flags(queue(builder'(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), nrows(p0)*p1))
return.c_buffer build(len(flags(queue(builder''(), p2), BitAnd(ocl_core::MEM_HOST_WRITE_ONLY, ocl_core::MEM_READ_ONLY)), ncols(p0)*p1))
return.delta_path_buffers new(nrows(p0), ncols(p0), p1, p2)
return.ldata build(len(flags(queue(builder(), p2), ocl_core::MEM_READ_WRITE), len(from_matrix(p0).lindices)*p1))
return.normal_buffers from_indices(from_matrix(p0), p2)
return.path_buffers new(nrows(p0), ncols(p0), p1, p2)
return.rhs_buffer build(len(flags(queue(builder''''(), p2), ocl_core::MEM_READ_WRITE), nrows(p0)*p1))
return.status_buffer build(len(flags(queue(builder'''''(), p2), ocl_core::MEM_READ_WRITE), p1))
return.tmp_buffer build(len(flags(queue(builder'''(), p2), ocl_core::MEM_READ_WRITE), ncols(p0)*p1))
## PathFollowingDirectClSolver<T>::from_data
arg(builder'(), 0.1)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).a_buffers.col_indices)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).a_buffers.row_offsets)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).a_buffers.values)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).at_buffers.col_indices)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).at_buffers.row_offsets)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).at_buffers.values)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).b_buffer)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).c_buffer)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).delta_path_buffers.w)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).delta_path_buffers.x)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).delta_path_buffers.y)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).delta_path_buffers.z)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).ldata)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.anorm_indices)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.anorm_indptr)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.anorm_indptr_i)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.anorm_indptr_j)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ldecomp_indptr)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ldecomp_indptr_i)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ldecomp_indptr_j)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ldiag_indptr)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.lindices)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.lindptr)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ltindices)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ltindptr)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).normal_buffers.ltmap)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.w)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.x)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.y)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.z)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).rhs_buffer)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).status_buffer)
arg(builder'(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).tmp_buffer)
arg(builder'(), p2)
arg(builder'(), p3)
arg(builder'(), p7)
arg(builder(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.w)
arg(builder(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.x)
arg(builder(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.y)
arg(builder(), from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0).path_buffers.z)
arg(builder(), p2)
arg(builder(), p3)
arg(builder(), p7)
build(builder'())
build(builder())
builder()
global_work_size(builder'(), p8)
global_work_size(builder(), p8)
name(builder'(), "normal_eqn_step")
name(builder(), "normal_eqn_init")
program(builder'(), p1)
program(builder(), p1)
queue(builder'(), p0)
queue(builder(), p0)
return PathFollowingDirectClSolver{}
return.buffers from_data(try_from_csr_data(p2, p3, p4, p5, p6), p8, p0)
return.kernel_normal_eq_step build(builder'())
return.kernel_normal_init build(builder())
return.solution from_elem(default(), p3*p8)
return.status from_elem(0, p8)
## PathFollowingDirectClSolver<T>::solve
enq(read(self.buffers.path_buffers.x, self.solution))
enq(read(self.buffers.status_buffer, self.status))
    for each(Range{end: p4, start: 0})
enq(self.kernel_normal_eq_step)
    for each(Range{end: p4, start: 0})
enq(self.kernel_normal_init)
enq(write(self.buffers.b_buffer, p2))
enq(write(self.buffers.c_buffer, p3))
finish(p1)
leave loop early()
read(self.buffers.path_buffers.x, self.solution)
read(self.buffers.status_buffer, self.status)
    for each(Range{end: p4, start: 0})
return self.solution
write(self.buffers.b_buffer, p2)
write(self.buffers.c_buffer, p3)
## Matrix::from_sparse_matrix
return Matrix{}
return.data list
return.data[] splat(elem(p0))
    for each(values(p0))
return.indices col_indices(p0)
return.indptr row_offsets(p0)
return.size nrows(p0)
## common::matrix_vector_product
elem(p2) := (acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(idx(p2) +1)], start: elem(p0.indptr)})]*p1[p0.indices[elem(Range{end: p0.indptr[(idx(p2) +1)], start: elem(p0.indptr)})]])
    take(p0.size)
## common::dot_product
return (acc(0) +elem(p0)*elem(p1))
## common::vector_update
elem(p0) := (elem(p0)*p2 +elem(p1)*p3)
## common::vector_set
elem(p0) := p1
## common::vector_norm
return sqrt((acc(0) +elem(p0)^2))
## common::normal_eqn_rhs
matrix_vector_product(p0, p9, p10)
matrix_vector_product(p1, p4, p9)
p10[elem(Range{end: p0.size, start: 0})] := (acc(p7/p4[elem(Range{end: p0.size, start: 0})]) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p2[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +p10[elem(Range{end: p0.size, start: 0})] -p5[elem(Range{end: p0.size, start: 0})])
    Lt(elem(Range{end: p0.size, start: 0}), p8)
p10[elem(Range{end: p0.size, start: 0})] := (acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p2[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +p10[elem(Range{end: p0.size, start: 0})] -p5[elem(Range{end: p0.size, start: 0})])
    !Lt(elem(Range{end: p0.size, start: 0}), p8)
p9[elem(Range{end: p1.size, start: 0})] := (p2[elem(Range{end: p1.size, start: 0})]*p6[elem(Range{end: p1.size, start: 0})]/p3[elem(Range{end: p1.size, start: 0})] -p2[elem(Range{end: p1.size, start: 0})]*p9[elem(Range{end: p1.size, start: 0})]/p3[elem(Range{end: p1.size, start: 0})] +p7/p3[elem(Range{end: p1.size, start: 0})])
## common::primal_feasibility
return sqrt((-2*acc((-p2[elem(Range{end: p0.size, start: 0})] +p3[elem(Range{end: p0.size, start: 0})]))*p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +acc((-p2[elem(Range{end: p0.size, start: 0})] +p3[elem(Range{end: p0.size, start: 0})]))^2 +acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]^2*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]^2))/(sqrt((acc(0) +elem(p1)^2)) +1)
    Lt(elem(Range{end: p0.size, start: 0}), len(p2))
return sqrt((-2*acc(p3[elem(Range{end: p0.size, start: 0})])*p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +acc(p3[elem(Range{end: p0.size, start: 0})])^2 +acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]^2*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]^2))/(sqrt((acc(0) +elem(p1)^2)) +1)
    !Lt(elem(Range{end: p0.size, start: 0}), len(p2))
## common::dual_feasibility
return sqrt((-2*acc((p2[elem(Range{end: p0.size, start: 0})] +p3[elem(Range{end: p0.size, start: 0})]))*p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +acc((p2[elem(Range{end: p0.size, start: 0})] +p3[elem(Range{end: p0.size, start: 0})]))^2 +acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]^2*p1[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]^2))/(sqrt((acc(0) +elem(p1)^2)) +1)
## common::compute_dx_dz_dw
elem(p10) := (-elem(p4)*elem(p6)/elem(p3) +p7/elem(p3) -elem(p4))
p8[elem(Range{end: p0.size, start: 0})] := (-2*acc(splat(0))*p1[elem(Range{end: p0.size, start: 0})]/p2[elem(Range{end: p0.size, start: 0})] -p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p1[elem(Range{end: p0.size, start: 0})]*p3[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] -p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p1[elem(Range{end: p0.size, start: 0})]*p6[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] +p1[elem(Range{end: p0.size, start: 0})]*p5[elem(Range{end: p0.size, start: 0})]/p2[elem(Range{end: p0.size, start: 0})] +p7/p2[elem(Range{end: p0.size, start: 0})])
p9[elem(Range{end: p0.size, start: 0})] := (2*acc(splat(0)) +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p3[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p6[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]] -p2[elem(Range{end: p0.size, start: 0})] -p5[elem(Range{end: p0.size, start: 0})])
return max((-2*acc(splat(0))/p2[elem(Range{end: p0.size, start: 0})] -p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p3[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] -p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p6[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] +p5[elem(Range{end: p0.size, start: 0})]/p2[elem(Range{end: p0.size, start: 0})] +1), (-p7/(elem(p3)*elem(p4)) +elem(p6)/elem(p3) +1), (2*acc(splat(0))/p2[elem(Range{end: p0.size, start: 0})] +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p3[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] +p0.data[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]*p6[p0.indices[elem(Range{end: p0.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p0.indptr[elem(Range{end: p0.size, start: 0})]})]]/p2[elem(Range{end: p0.size, start: 0})] -p7/(p1[elem(Range{end: p0.size, start: 0})]*p2[elem(Range{end: p0.size, start: 0})]) -p5[elem(Range{end: p0.size, start: 0})]/p2[elem(Range{end: p0.size, start: 0})]), -elem(p6)/elem(p3), acc(splat(0)), acc(splat(0)))
## ANormIndices::from_indices
return ANormIndices{}
return.indices list
return.indices[] elem(p0.anorm_indices)
return.indptr list
return.indptr[] elem(p0.anorm_indptr)
return.indptr_i list
return.indptr_i[] elem(p0.anorm_indptr_i)
return.indptr_j list
return.indptr_j[] elem(p0.anorm_indptr_j)
## LDecompositionIndices::from_indices
return LDecompositionIndices{}
return.indptr list
return.indptr[] elem(p0.ldecomp_indptr)
return.indptr_i list
return.indptr_i[] elem(p0.ldecomp_indptr_i)
return.indptr_j list
return.indptr_j[] elem(p0.ldecomp_indptr_j)
## LIndices::from_indices
return LIndices{}
return.diag_indptr list
return.diag_indptr[] elem(p0.ldiag_indptr)
return.indices list
return.indices[] elem(p0.lindices)
return.indptr list
return.indptr[] elem(p0.lindptr)
## LTIndices::from_indices
return LTIndices{}
return.indices list
return.indices[] elem(p0.ltindices)
return.indptr list
return.indptr[] elem(p0.ltindptr)
return.map list
return.map[] elem(p0.ltmap)
## path_following_direct::normal_matrix_cholesky_decomposition
elem(p8) := (acc((acc(splat(0)) +p0.data[p1.indptr_i[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p0.data[p1.indptr_j[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p3[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]/p4[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]))/p8[p7.diag_indptr[p7.indices[elem(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]})]]] -p8[p2.indptr_i[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]*p8[p2.indptr_j[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]/p8[p7.diag_indptr[p7.indices[elem(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]})]]])
    !Eq(elem(Range{end: p0.size, start: 0}), p7.indices[elem(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]})])
elem(p8) := sqrt(abs(-acc((acc(p6[elem(Range{end: p0.size, start: 0})]/p5[elem(Range{end: p0.size, start: 0})]) +p0.data[p1.indptr_i[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p0.data[p1.indptr_j[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p3[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]/p4[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]])) +p8[p2.indptr_i[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]*p8[p2.indptr_j[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]))
    Eq(elem(Range{end: p0.size, start: 0}), p7.indices[elem(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]})]); Lt(elem(Range{end: p0.size, start: 0}), len(p6))
elem(p8) := sqrt(abs(-acc((acc(splat(0)) +p0.data[p1.indptr_i[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p0.data[p1.indptr_j[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]*p3[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]]/p4[p1.indices[elem(Range{end: p1.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p1.indptr)})]])) +p8[p2.indptr_i[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]*p8[p2.indptr_j[elem(Range{end: p2.indptr[(idx(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]}) +1)], start: elem(p2.indptr)})]]))
    !Lt(elem(Range{end: p0.size, start: 0}), len(p6)); Eq(elem(Range{end: p0.size, start: 0}), p7.indices[elem(Range{end: p7.indptr[(elem(Range{end: p0.size, start: 0}) +1)], start: p7.indptr[elem(Range{end: p0.size, start: 0})]})])
## path_following_direct::cholesky_solve
p5[elem(Range{end: p0, start: 0})] := (-p3[p2.map[acc((p2.indptr[elem(Range{end: p0, start: 0})] +1))]]*p4[elem(Range{end: p0, start: 0})]/(p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]*p3[acc(p1.indptr[elem(Range{end: p0, start: 0})])]) +p4[elem(Range{end: p0, start: 0})]/(p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]*p3[acc(p1.indptr[elem(Range{end: p0, start: 0})])]))
    !Lt(acc(p1.indices[p1.indptr[elem(Range{end: p0, start: 0})]]), elem(Range{end: p0, start: 0}))
p5[elem(Range{end: p0, start: 0})] := (p3[acc(p1.indptr[elem(Range{end: p0, start: 0})])]*p3[p2.map[acc((p2.indptr[elem(Range{end: p0, start: 0})] +1))]]*p4[elem(Range{end: p0, start: 0})]/(p3[(acc(p1.indptr[elem(Range{end: p0, start: 0})]) +1)]*p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]) -p3[acc(p1.indptr[elem(Range{end: p0, start: 0})])]*p4[elem(Range{end: p0, start: 0})]/(p3[(acc(p1.indptr[elem(Range{end: p0, start: 0})]) +1)]*p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]) -p3[p2.map[acc((p2.indptr[elem(Range{end: p0, start: 0})] +1))]]*p4[elem(Range{end: p0, start: 0})]/(p3[(acc(p1.indptr[elem(Range{end: p0, start: 0})]) +1)]*p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]) +p4[elem(Range{end: p0, start: 0})]/(p3[(acc(p1.indptr[elem(Range{end: p0, start: 0})]) +1)]*p3[(p1.indptr[(elem(Range{end: p0, start: 0}) +1)] -1)]))
    Lt(acc(p1.indices[p1.indptr[elem(Range{end: p0, start: 0})]]), elem(Range{end: p0, start: 0}))
## path_following_direct::normal_eqn_step
cholesky_solve(p0.size, p4, p5, p6, p19, p16)
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
compute_dx_dz_dw(p1, p7, p8, p9, p10, p12, p16, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), p14, p15, p17)
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
elem(p10) := (blend(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)), splat(0), min(0.9995/(compute_dx_dz_dw(p1, p7, p8, p9, p10, p12, p16, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), p14, p15, p17)), splat(1)))*elem(p17) +elem(p10)*splat(1))
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
elem(p7) := (blend(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)), splat(0), min(0.9995/(compute_dx_dz_dw(p1, p7, p8, p9, p10, p12, p16, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), p14, p15, p17)), splat(1)))*elem(p14) +elem(p7)*splat(1))
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
elem(p8) := (blend(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)), splat(0), min(0.9995/(compute_dx_dz_dw(p1, p7, p8, p9, p10, p12, p16, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), p14, p15, p17)), splat(1)))*elem(p15) +elem(p8)*splat(1))
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
elem(p9) := (blend(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)), splat(0), min(0.9995/(compute_dx_dz_dw(p1, p7, p8, p9, p10, p12, p16, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), p14, p15, p17)), splat(1)))*elem(p16) +elem(p9)*splat(1))
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
normal_eqn_rhs(p0, p1, p7, p8, p9, p11, p12, (2*acc(0)*p13/(len(p10) +p1.size) +elem(p10)*elem(p9)*p13/(len(p10) +p1.size) +elem(p7)*elem(p8)*p13/(len(p10) +p1.size)), len(p10), p18, p19)
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
normal_matrix_cholesky_decomposition(p0, p2, p3, p7, p8, p9, p10, p4, p6)
    !all(BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality)))
return BitAnd(BitAnd(simd_lt(dual_feasibility(p1, p9, p12, p8), p20.dual_feasibility), simd_lt(primal_feasibility(p0, p7, p10, p11), p20.primal_feasibility)), simd_lt((2*acc(0)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p10)*elem(p9)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1) +elem(p7)*elem(p8)/(sqrt((acc(0) +elem(p7)^2)) +sqrt((acc(0) +elem(p9)^2)) +1)), p20.optimality))
## path_following_direct::normal_eqn_init
elem(p0) := splat(1000)
elem(p1) := splat(1000)
elem(p2) := splat(1000)
elem(p3) := splat(1000)
## PathData::new
return PathData{}
return.w list
return.w[] splat(0)
    for each(Range{end: p2, start: 0})
return.x list
return.x[] splat(0)
    for each(Range{end: p1, start: 0})
return.y list
return.y[] splat(0)
    for each(Range{end: p0, start: 0})
return.z list
return.z[] splat(0)
    for each(Range{end: p1, start: 0})
## PathFollowingDirectSimdData::from_data
return PathFollowingDirectSimdData{}
return.a from_sparse_matrix(p0)
return.a_norm_ptr ANormIndices{}
return.a_norm_ptr.indices list
return.a_norm_ptr.indices[] elem(from_matrix(p0).anorm_indices)
return.a_norm_ptr.indptr list
return.a_norm_ptr.indptr[] elem(from_matrix(p0).anorm_indptr)
return.a_norm_ptr.indptr_i list
return.a_norm_ptr.indptr_i[] elem(from_matrix(p0).anorm_indptr_i)
return.a_norm_ptr.indptr_j list
return.a_norm_ptr.indptr_j[] elem(from_matrix(p0).anorm_indptr_j)
return.at from_sparse_matrix(transpose(p0))
return.delta_path_buffers new(nrows(p0), ncols(p0), p1)
return.l_data list
return.l_data[] splat(0)
    for each(from_matrix(p0).lindices)
return.l_decomp_ptr LDecompositionIndices{}
return.l_decomp_ptr.indptr list
return.l_decomp_ptr.indptr[] elem(from_matrix(p0).ldecomp_indptr)
return.l_decomp_ptr.indptr_i list
return.l_decomp_ptr.indptr_i[] elem(from_matrix(p0).ldecomp_indptr_i)
return.l_decomp_ptr.indptr_j list
return.l_decomp_ptr.indptr_j[] elem(from_matrix(p0).ldecomp_indptr_j)
return.l_ptr LIndices{}
return.l_ptr.diag_indptr list
return.l_ptr.diag_indptr[] elem(from_matrix(p0).ldiag_indptr)
return.l_ptr.indices list
return.l_ptr.indices[] elem(from_matrix(p0).lindices)
return.l_ptr.indptr list
return.l_ptr.indptr[] elem(from_matrix(p0).lindptr)
return.lt_ptr LTIndices{}
return.lt_ptr.indices list
return.lt_ptr.indices[] elem(from_matrix(p0).ltindices)
return.lt_ptr.indptr list
return.lt_ptr.indptr[] elem(from_matrix(p0).ltindptr)
return.lt_ptr.map list
return.lt_ptr.map[] elem(from_matrix(p0).ltmap)
return.path_buffers new(nrows(p0), ncols(p0), p1)
return.rhs list
return.rhs[] splat(0)
    for each(Range{end: nrows(p0), start: 0})
return.tmp list
return.tmp[] splat(0)
    for each(Range{end: ncols(p0), start: 0})
## <Tolerances as Default>::default @ipm-simd ipm_simd
return Tolerances{}
return.dual_feasibility splat(1e-08)
return.optimality splat(1e-08)
return.primal_feasibility splat(1e-08)
## PathFollowingDirectSimdSolver::from_data
return PathFollowingDirectSimdSolver{buffers: from_data(try_from_csr_data(p0, p1, p2, p3, p4), p5)}
## PathFollowingDirectSimdSolver::solve
elem(self.buffers.path_buffers.w) := splat(1000)
elem(self.buffers.path_buffers.x) := splat(1000)
elem(self.buffers.path_buffers.y) := splat(1000)
elem(self.buffers.path_buffers.z) := splat(1000)
leave loop early()
    all(normal_eqn_step(self.buffers.a, self.buffers.at, self.buffers.a_norm_ptr, self.buffers.l_decomp_ptr, self.buffers.l_ptr, self.buffers.lt_ptr, self.buffers.l_data, self.buffers.path_buffers.x, self.buffers.path_buffers.z, self.buffers.path_buffers.y, self.buffers.path_buffers.w, p1, p2, splat(0.1), self.buffers.delta_path_buffers.x, self.buffers.delta_path_buffers.z, self.buffers.delta_path_buffers.y, self.buffers.delta_path_buffers.w, self.buffers.tmp, self.buffers.rhs, p3))
normal_eqn_step(self.buffers.a, self.buffers.at, self.buffers.a_norm_ptr, self.buffers.l_decomp_ptr, self.buffers.l_ptr, self.buffers.lt_ptr, self.buffers.l_data, self.buffers.path_buffers.x, self.buffers.path_buffers.z, self.buffers.path_buffers.y, self.buffers.path_buffers.w, p1, p2, splat(0.1), self.buffers.delta_path_buffers.x, self.buffers.delta_path_buffers.z, self.buffers.delta_path_buffers.y, self.buffers.delta_path_buffers.w, self.buffers.tmp, self.buffers.rhs, p3)
    for each(Range{end: p4, start: 0})
return self.buffers.path_buffers.x
