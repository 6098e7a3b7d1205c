//! Runs cases given on standard input against the real crate through its public interface and prints every public
//! quantity as JSON, one line per case.  Used to replay counterexamples and for the bounded cross-checks.
use ndarray_glm::{
    Array1, Array2, Binomial, Exponential, Fit, Gamma, InvGaussian, Linear, Logistic, ModelBuilder, Poisson, exp_link,
    gamma_link, inv_gauss_link, logistic_link,
};
use std::fmt::Write as _;
use std::io::Read;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Default, Clone)]
struct Case {
    id: String,
    family: String,
    y: Vec<f64>,
    x: (usize, usize, Vec<f64>),
    off: Option<Vec<f64>>,
    wt: Option<Vec<f64>>,
    fr: Option<Vec<usize>>,
    twice: String,
    noconst: bool,
    nostd: bool,
    l1: Option<f64>,
    l2: Option<f64>,
    maxiter: Option<usize>,
    tol: Option<f64>,
    init: Option<Vec<f64>>,
    alt: Option<Vec<f64>>,
    pred: Option<(usize, usize, Vec<f64>)>,
    poff: Option<Vec<f64>>,
    order: Vec<String>,
    rev: bool,
}

fn num(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else if v.is_infinite() {
        if v > 0. { "Infinity".into() } else { "-Infinity".into() }
    } else {
        format!("{v:?}")
    }
}
fn vecs(v: impl IntoIterator<Item = f64>) -> String {
    let s: Vec<String> = v.into_iter().map(num).collect();
    format!("[{}]", s.join(","))
}
fn a1(v: &Array1<f64>) -> String {
    vecs(v.iter().copied())
}
fn a2(v: &Array2<f64>) -> String {
    let rows: Vec<String> = v.rows().into_iter().map(|r| vecs(r.iter().copied())).collect();
    format!("[{}]", rows.join(","))
}
fn st(s: impl ToString) -> String {
    let s: String = s.to_string().chars().map(|c| if c.is_control() || c == '"' || c == '\\' { ' ' } else { c }).collect();
    format!("\"{s}\"")
}
fn er(e: impl std::fmt::Debug) -> String {
    let s = format!("{e:?}");
    format!("{{\"err\":{}}}", st(s.chars().take(160).collect::<String>()))
}
fn res<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl Fn(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => er(e),
    }
}

const QUERIES: &[&str] = &[
    "aic", "bic", "cooks", "covariance", "deviance", "dispersion", "fisher", "hat", "infl_coef", "leverage", "loo_exact",
    "lr_test", "lr_test_against", "ndf", "null_like", "predict", "predict_train", "resid_dev", "resid_dev_std", "resid_part",
    "resid_pear", "resid_pear_std", "resid_resp", "resid_student", "resid_work", "score", "score_test",
    "score_test_against", "test_ndf", "wald_test", "wald_test_against", "wald_z", "pvalue_lr_test", "pvalue_wald",
    "pvalue_exact",
];

macro_rules! query {
    ($fit:expr, $c:expr, $q:expr, $special:expr) => {{
        let fit = $fit;
        let c: &Case = $c;
        let alt = || Array1::from(c.alt.clone().unwrap_or_else(|| fit.result.to_vec()));
        match $q {
            "aic" => num(fit.aic()),
            "bic" => num(fit.bic()),
            "cooks" => res(fit.cooks(), |v| a1(&v)),
            "covariance" => res(fit.covariance(), |v| a2(v)),
            "deviance" => num(fit.deviance()),
            "dispersion" => num(fit.dispersion()),
            "fisher" => a2(&fit.fisher(&alt())),
            "hat" => res(fit.hat(), |v| a2(v)),
            "infl_coef" => res(fit.infl_coef(), |v| a2(&v)),
            "leverage" => res(fit.leverage(), |v| a1(&v)),
            "loo_exact" => res(fit.loo_exact(), |v| a2(&v)),
            "lr_test" => num(fit.lr_test()),
            "lr_test_against" => num(fit.lr_test_against(&alt())),
            "ndf" => num(fit.ndf()),
            "null_like" => num(fit.null_like()),
            "predict" => match &c.pred {
                None => "null".into(),
                Some((m, p, v)) => {
                    let x = Array2::from_shape_vec((*m, *p), v.clone()).unwrap();
                    let off = c.poff.clone().map(Array1::from);
                    a1(&fit.predict(&x, off.as_ref()))
                }
            },
            "predict_train" => {
                let x = Array2::from_shape_vec((c.x.0, c.x.1), c.x.2.clone()).unwrap();
                let off = c.off.clone().map(Array1::from);
                a1(&fit.predict(&x, off.as_ref()))
            }
            "resid_dev" => a1(&fit.resid_dev()),
            "resid_dev_std" => res(fit.resid_dev_std(), |v| a1(&v)),
            "resid_part" => a2(&fit.resid_part()),
            "resid_pear" => a1(fit.resid_pear()),
            "resid_pear_std" => res(fit.resid_pear_std(), |v| a1(&v)),
            "resid_resp" => a1(&fit.resid_resp()),
            "resid_student" => res(fit.resid_student(), |v| a1(&v)),
            "resid_work" => a1(&fit.resid_work()),
            "score" => a1(&fit.score(alt())),
            "score_test" => res(fit.score_test(), num),
            "score_test_against" => res(fit.score_test_against(alt()), num),
            "test_ndf" => fit.test_ndf().to_string(),
            "wald_test" => num(fit.wald_test()),
            "wald_test_against" => num(fit.wald_test_against(&alt())),
            "wald_z" => res(fit.wald_z(), |v| a1(&v)),
            "pvalue_lr_test" => num(fit.pvalue_lr_test()),
            "pvalue_wald" => res(fit.pvalue_wald(), |v| a1(&v)),
            "pvalue_exact" => res(fit.pvalue_exact(), |v| a1(&v)),
            q => $special(fit, q),
        }
    }};
}

macro_rules! run {
    ($c:expr, $m:ty, $conv:expr, $extra:expr, $special:expr) => {{
        let c: &Case = $c;
        let y = Array1::from_iter(c.y.iter().map($conv));
        let x = Array2::from_shape_vec((c.x.0, c.x.1), c.x.2.clone()).unwrap();
        let mut b = ModelBuilder::<$m>::data(&y, &x);
        let mut ops: Vec<&str> = vec!["off", "wt", "fr", "noconst", "nostd", "twice"];
        if c.rev {
            ops.reverse();
        }
        for op in ops {
            b = match op {
                "off" if c.off.is_some() => b.linear_offset(Array1::from(c.off.clone().unwrap())),
                "wt" if c.wt.is_some() => b.var_weights(Array1::from(c.wt.clone().unwrap())),
                "fr" if c.fr.is_some() => b.freq_weights(Array1::from(c.fr.clone().unwrap())),
                "noconst" if c.noconst => b.no_constant(),
                "nostd" if c.nostd => b.no_standardize(),
                "twice" => match c.twice.as_str() {
                    "off" => b.linear_offset(Array1::from(c.off.clone().unwrap())),
                    "wt" => b.var_weights(Array1::from(c.wt.clone().unwrap())),
                    "fr" => b.freq_weights(Array1::from(c.fr.clone().unwrap())),
                    _ => b,
                },
                _ => b,
            };
        }
        let mut out = String::new();
        match b.build() {
            Err(e) => {
                let _ = write!(out, "\"build\":{}", er(e));
            }
            Ok(model) => {
                let _ = write!(out, "\"build\":\"ok\",\"n_obs\":{},\"n_eff\":{}", num(model.data.n_obs()), num(model.data.n_eff()));
                let f = |v: &Option<Array1<f64>>| v.as_ref().map_or("null".to_string(), a1);
                let d = &model.data;
                let _ = write!(out, ",\"y\":{},\"stored\":{{\"off\":{},\"wt\":{},\"fr\":{}}}", a1(&d.y), f(&d.linear_offset), f(&d.weights), f(&d.freqs));
                let mut o = model.fit_options();
                if let Some(v) = c.l1 {
                    o = o.l1_reg(v);
                }
                if let Some(v) = c.l2 {
                    o = o.l2_reg(v);
                }
                if let Some(v) = c.maxiter {
                    o = o.max_iter(v);
                }
                if let Some(v) = c.tol {
                    o = o.tol(v);
                }
                if let Some(v) = &c.init {
                    o.options.init_guess = Some(Array1::from(v.clone()));
                }
                match o.fit() {
                    Err(e) => {
                        let _ = write!(out, ",\"fit\":{}", er(e));
                    }
                    Ok(fit) => {
                        let _ = write!(
                            out,
                            ",\"fit\":\"ok\",\"result\":{},\"model_like\":{},\"n_iter\":{},\"options\":{{\"l1\":{},\"l2\":{},\"max_iter\":{},\"tol\":{},\"init\":{}}}",
                            a1(&fit.result), num(fit.model_like), fit.n_iter, num(fit.options.l1), num(fit.options.l2),
                            fit.options.max_iter, num(fit.options.tol),
                            fit.options.init_guess.as_ref().map_or("null".into(), |v| a1(v))
                        );
                        let h: Vec<String> =
                            fit.history.iter().map(|s| format!("[{},{}]", num(s.like), a1(&s.guess))).collect();
                        let _ = write!(out, ",\"history\":[{}]", h.join(","));
                        let extra: &[&str] = $extra;
                        let qs: Vec<String> = if c.order.is_empty() {
                            QUERIES.iter().chain(extra.iter()).map(|s| s.to_string()).collect()
                        } else {
                            c.order.clone()
                        };
                        let mut s = String::new();
                        for (i, q) in qs.iter().enumerate() {
                            let r = catch_unwind(AssertUnwindSafe(|| query!(&fit, c, q.as_str(), $special)));
                            let v = r.unwrap_or_else(|_| "{\"panic\":1}".into());
                            let _ = write!(s, "{}[\"{}\",{}]", if i > 0 { "," } else { "" }, q, v);
                        }
                        let _ = write!(out, ",\"q\":[{s}]");
                    }
                }
            }
        }
        out
    }};
}

fn go(c: &Case) -> String {
    let f = |v: &f64| *v;
    let lin_special = |fit: &Fit<Linear, f64>, q: &str| match q {
        "r_sq" => num(fit.r_sq()),
        "rss" => num(fit.rss()),
        "resid_quantile" => a1(&fit.resid_quantile()),
        _ => "null".into(),
    };
    macro_rules! quant {
        ($m:ty) => {
            |fit: &Fit<$m, f64>, q: &str| match q {
                "resid_quantile" => a1(&fit.resid_quantile()),
                _ => "null".into(),
            }
        };
    }
    macro_rules! plain {
        ($m:ty) => {
            |_: &Fit<$m, f64>, _: &str| -> String { "null".into() }
        };
    }
    match c.family.as_str() {
        "linear" => run!(c, Linear, f, &["r_sq", "rss", "resid_quantile"], lin_special),
        "logistic" => run!(c, Logistic, f, &[], plain!(Logistic)),
        "logistic_bool" => run!(c, Logistic, |v: &f64| *v > 0.5, &[], plain!(Logistic)),
        "logistic_cloglog" => run!(c, Logistic<logistic_link::Cloglog>, f, &[], plain!(Logistic<logistic_link::Cloglog>)),
        "poisson" => run!(c, Poisson, |v: &f64| *v as u32, &[], plain!(Poisson)),
        "binomial7" => run!(c, Binomial<7>, |v: &f64| *v as u16, &[], plain!(Binomial<7>)),
        "binomial1" => run!(c, Binomial<1>, |v: &f64| *v as u16, &[], plain!(Binomial<1>)),
        "exponential" => run!(c, Exponential, f, &["resid_quantile"], quant!(Exponential)),
        "exponential_log" => run!(c, Exponential<exp_link::Log>, f, &["resid_quantile"], quant!(Exponential<exp_link::Log>)),
        "gamma" => run!(c, Gamma, f, &["resid_quantile"], quant!(Gamma)),
        "gamma_log" => run!(c, Gamma<gamma_link::Log>, f, &["resid_quantile"], quant!(Gamma<gamma_link::Log>)),
        "inv_gauss" => run!(c, InvGaussian, f, &[], plain!(InvGaussian)),
        "inv_gauss_log" => run!(c, InvGaussian<inv_gauss_link::Log>, f, &[], plain!(InvGaussian<inv_gauss_link::Log>)),
        other => format!("\"bad\":{}", st(other)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut c = Case::default();
    for line in s.lines() {
        let mut t = line.split_whitespace();
        let Some(k) = t.next() else { continue };
        let r: Vec<&str> = t.collect();
        let fl = |r: &[&str]| -> Vec<f64> { r.iter().map(|s| s.parse().unwrap()).collect() };
        match k {
            "case" => c = Case { id: r[0].into(), ..Default::default() },
            "family" => c.family = r[0].into(),
            "y" => c.y = fl(&r),
            "x" => c.x = (r[0].parse().unwrap(), r[1].parse().unwrap(), fl(&r[2..])),
            "off" => c.off = Some(fl(&r)),
            "wt" => c.wt = Some(fl(&r)),
            "fr" => c.fr = Some(r.iter().map(|s| s.parse().unwrap()).collect()),
            "twice" => c.twice = r[0].into(),
            "rev" => c.rev = true,
            "noconst" => c.noconst = true,
            "nostd" => c.nostd = true,
            "l1" => c.l1 = Some(fl(&r)[0]),
            "l2" => c.l2 = Some(fl(&r)[0]),
            "maxiter" => c.maxiter = Some(r[0].parse().unwrap()),
            "tol" => c.tol = Some(fl(&r)[0]),
            "init" => c.init = Some(fl(&r)),
            "alt" => c.alt = Some(fl(&r)),
            "pred" => c.pred = Some((r[0].parse().unwrap(), r[1].parse().unwrap(), fl(&r[2..]))),
            "poff" => c.poff = Some(fl(&r)),
            "order" => c.order = r.iter().map(|s| s.to_string()).collect(),
            "end" => {
                let out = catch_unwind(AssertUnwindSafe(|| go(&c)));
                match out {
                    Ok(o) => println!("{{\"id\":\"{}\",{}}}", c.id, o),
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                        println!("{{\"id\":\"{}\",\"panic\":{}}}", c.id, st(m.unwrap_or_default()));
                    }
                }
            }
            _ => panic!("unknown directive {k}"),
        }
    }
}
