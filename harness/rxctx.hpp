#pragma once
#include "codec.hpp"
namespace cx {
static const uint16_t kRx = 128, kRxUser = 2474;
//! A database that also defines the RXCONFIG messages.
inline std::unique_ptr<Ctx> RxCtx(Rng& rng, const m::GenOpt& o = m::GenOpt())
{
    m::DbM db = m::GenDb(rng, o, 3);
    for (bool taken = true; taken;) // ids that have a meaning of their own
    {
        taken = false;
        for (auto& x : db.msgs)
        {
            for (uint16_t id : {kRx, kRxUser, uint16_t(43), uint16_t(140), uint16_t(1273), uint16_t(1734), uint16_t(2050), uint16_t(2537)}) { taken |= x.id == id; }
        }
        if (taken) { db = m::GenDb(rng, o, 3); }
    }
    for (uint16_t id : {kRx, kRxUser})
    {
        bool dup = false;
        for (auto& x : db.msgs) { dup |= x.id == id; }
        if (dup || rng.Chance(0.1)) { continue; }
        m::MsgM mm;
        mm.id = id;
        mm.oid = "rx" + std::to_string(id);
        mm.name = id == kRx ? "RXCONFIG" : "RXCONFIGUSER";
        m::DefM d;
        d.crc = 0x1234;
        FieldM f;
        f.name = "embedded_message";
        f.kind = K::Var;
        f.t = T::UCHAR;
        f.size = 1;
        f.alpha = "R";
        f.arrLen = 32768;
        d.f.push_back(f);
        mm.defs.push_back(d);
        mm.latest = d.crc;
        db.msgs.push_back(mm);
    }
    return MakeCtx(std::move(db));
}
} // namespace cx
