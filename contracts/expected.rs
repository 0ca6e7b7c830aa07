// ---- Expected: which alternative is held
pub open spec fn ev_wf(x: XEv) -> bool { if x.hasValue_ { x.data_ is value } else { x.data_ is error } }
pub open spec fn eo_wf(x: XEo) -> bool { if x.hasValue_ { x.data_ is value } else { x.data_ is error } }
pub open spec fn em_wf(x: XEm) -> bool { if x.hasValue_ { x.data_ is value } else { x.data_ is error } }
pub open spec fn ev_ok(v: XVpVal) -> XEv { XEv { data_: XEvU::value(v), hasValue_: true } }
pub open spec fn ev_err(e: XVpErr) -> XEv { XEv { data_: XEvU::error(XUe { error_: e }), hasValue_: false } }
pub open spec fn eo_ok(v: XVpOut) -> XEo { XEo { data_: XEoU::value(v), hasValue_: true } }
pub open spec fn eo_err(e: XVpErr) -> XEo { XEo { data_: XEoU::error(XUe { error_: e }), hasValue_: false } }
pub open spec fn em_ok(v: XVpVal) -> XEm { XEm { data_: XEmU::value(v), hasValue_: true } }
pub open spec fn em_err(e: XVpOut) -> XEm { XEm { data_: XEmU::error(XUo { error_: e }), hasValue_: false } }
// the calls made so far, with the object each one was given
pub enum Call { Val(XVpVal), Err(XVpErr), Fold(XVpOut, XVpVal), Whole(XEv) }
