# Contracts of the concurrent HEAD requests of src/cache.rs  (C19)
@file src/cache.rs
@fn check_if_file_exists
@props C19
@spec
    requires url_ok(job.vv().url) ==> results.allows(job.vv())
    ensures url_ok(job.vv().url) ==> results.told(job.vv())

@fn check_data
@props C19
@maypanic
@unwraps
@spec
    ensures match r {
        Some(j) => exists|k: int| 0 <= k < jobs@.len() && j.vv() == #[trigger] views(jobs@)[k] && url_ok(j.vv().url),
        None => forall|k: int| 0 <= k < jobs@.len() ==> !url_ok((#[trigger] views(jobs@)[k]).url) }
@clo 0 job: Job ->> (y: ())
    requires url_ok(job.vv().url) ==> results.allows(job.vv())
    ensures url_ok(job.vv().url) ==> results.told(job.vv())
@at start
    let ghost vx_jobs = jobs@;
    proof {
        vx_lock_invariant(|j: JobV| url_ok(j.url) && views(vx_jobs).contains(j));
        assert forall|k: int| 0 <= k < vx_jobs.len() implies views(vx_jobs).contains((#[trigger] vx_jobs[k]).vv()) by { assert(views(vx_jobs)[k] == vx_jobs[k].vv()); }
    }

