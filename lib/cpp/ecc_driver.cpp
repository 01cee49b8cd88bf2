// Reads programs on stdin, one per line:
//   CODE FREQ NQUBITS reg:size,reg:size | op ; op ; ...
// op is "type targets/controls" e.g. "x 0", "x 1 0+" (control 0), "x 1 0-", "measure 0 1" (qubit 0 -> bit 1), "barrier".
// Writes one JSON line per program: {"error":..} or the circuit obtained from the ECC mapper.
#include "ecc/Ecc.hpp"
#include "ecc/Id.hpp"
#include "ecc/Q18Surface.hpp"
#include "ecc/Q3Shor.hpp"
#include "ecc/Q5Laflamme.hpp"
#include "ecc/Q7Steane.hpp"
#include "ecc/Q9Shor.hpp"
#include "ecc/Q9Surface.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <iostream>
#include <memory>
#include <sstream>
#include <string>

using QC = qc::QuantumComputation;

static void dumpOp(std::ostream& o, const qc::Operation& op) {
    if (op.isClassicControlledOperation()) {
        const auto& c = dynamic_cast<const qc::ClassicControlledOperation&>(op);
        auto                                inner = c.getOperation()->clone();
        const qc::ClassicControlledOperation ref(std::move(inner), c.getControlRegister(), c.getExpectedValue(), qc::ComparisonKind::Eq);
        const bool                          eq = c.equals(ref, {}, {});
        o << "{\"if\":[" << c.getControlRegister().first << "," << c.getControlRegister().second << "," << c.getExpectedValue()
          << "," << (eq ? 1 : 0) << "],\"op\":";
        dumpOp(o, *c.getOperation());
        o << "}";
        return;
    }
    o << "{\"n\":\"" << qc::toString(op.getType()) << "\",\"t\":[";
    bool f = true;
    for (auto t : op.getTargets()) {
        o << (f ? "" : ",") << t;
        f = false;
    }
    o << "],\"c\":[";
    f = true;
    for (const auto& c : op.getControls()) {
        o << (f ? "" : ",") << "[" << c.qubit << "," << (c.type == qc::Control::Type::Pos ? 1 : 0) << "]";
        f = false;
    }
    o << "],\"p\":[";
    f = true;
    for (auto p : op.getParameter()) {
        o << (f ? "" : ",") << p;
        f = false;
    }
    o << "]";
    if (op.getType() == qc::Measure) {
        const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
        o << ",\"m\":[";
        f = true;
        for (auto b : m.getClassics()) {
            o << (f ? "" : ",") << b;
            f = false;
        }
        o << "]";
    }
    o << "}";
}

static void dumpCircuit(std::ostream& o, const QC& q) {
    o << "{\"nq\":" << q.getNqubits() << ",\"nc\":" << q.getNcbits() << ",\"regs\":{";
    bool f = true;
    for (const auto& [name, reg] : q.getCregs()) {
        o << (f ? "" : ",") << "\"" << name << "\":[" << reg.first << "," << reg.second << "]";
        f = false;
    }
    o << "},\"ops\":[";
    f = true;
    for (const auto& op : q) {
        if (!f) {
            o << ",";
        }
        f = false;
        dumpOp(o, *op);
    }
    o << "]}";
}

static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += (c == '\n') ? ' ' : c;
    }
    return r;
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string        code;
        std::size_t        freq = 0;
        std::size_t        nq   = 0;
        std::string        regs;
        std::string        bar;
        in >> code >> freq >> nq >> regs >> bar;
        auto               qc = std::make_shared<QC>();
        std::ostringstream out;
        try {
            qc->addQubitRegister(nq);
            std::istringstream rs(regs);
            std::string        r;
            while (std::getline(rs, r, ',')) {
                auto p = r.find(':');
                qc->addClassicalRegister(std::stoul(r.substr(p + 1)), r.substr(0, p));
            }
            std::string rest;
            std::getline(in, rest);
            std::istringstream ops(rest);
            std::string        o;
            while (std::getline(ops, o, ';')) {
                std::istringstream t(o);
                std::string        name;
                if (!(t >> name)) {
                    continue;
                }
                if (name == "barrier") {
                    qc->barrier();
                    continue;
                }
                if (name == "reset") {
                    qc::Qubit q = 0;
                    t >> q;
                    qc->reset(q);
                    continue;
                }
                if (name == "measure") {
                    std::vector<qc::Qubit> qs;
                    std::vector<qc::Bit>   cs;
                    qc::Qubit              q = 0;
                    qc::Bit                c = 0;
                    while (t >> q >> c) {
                        qs.push_back(q);
                        cs.push_back(c);
                    }
                    qc->measure(qs, cs);
                    continue;
                }
                const auto  type = qc::opTypeFromString(name);
                qc::Targets targets;
                qc::Controls controls;
                std::string tok;
                while (t >> tok) {
                    if (tok.back() == '+' || tok.back() == '-') {
                        controls.insert(qc::Control{static_cast<qc::Qubit>(std::stoul(tok)),
                                                    tok.back() == '+' ? qc::Control::Type::Pos : qc::Control::Type::Neg});
                    } else {
                        targets.push_back(static_cast<qc::Qubit>(std::stoul(tok)));
                    }
                }
                std::vector<qc::fp> params;
                if (name == "p" || name == "rx" || name == "ry" || name == "rz") {
                    params.push_back(0.7);
                }
                qc->emplace_back<qc::StandardOperation>(controls, targets, type, params);
            }
            std::unique_ptr<ecc::Ecc> m;
            if (code == "Id") {
                m = std::make_unique<ecc::Id>(qc, freq);
            } else if (code == "Q3Shor") {
                m = std::make_unique<ecc::Q3Shor>(qc, freq);
            } else if (code == "Q5Laflamme") {
                m = std::make_unique<ecc::Q5Laflamme>(qc, freq);
            } else if (code == "Q7Steane") {
                m = std::make_unique<ecc::Q7Steane>(qc, freq);
            } else if (code == "Q9Shor") {
                m = std::make_unique<ecc::Q9Shor>(qc, freq);
            } else if (code == "Q9Surface") {
                m = std::make_unique<ecc::Q9Surface>(qc, freq);
            } else if (code == "Q18Surface") {
                m = std::make_unique<ecc::Q18Surface>(qc, freq);
            } else {
                std::cout << "{\"error\":\"driver\"}" << std::endl;
                continue;
            }
            const QC   before(*qc);
            const auto mapped = m->apply();
            out << "{\"orig\":";
            dumpCircuit(out, before);
            out << ",\"mapped\":";
            dumpCircuit(out, *mapped);
            out << ",\"data\":" << m->getDataQubits().size() << ",\"name\":\"" << m->getName() << "\",\"nout\":" << m->getNOutputQubits(nq) << "}";
        } catch (const qc::QFRException& e) {
            out.str("");
            out << "{\"rejected\":\"" << esc(e.what()) << "\"}";
        } catch (const std::exception& e) {
            out.str("");
            out << "{\"error\":\"" << esc(e.what()) << "\"}";
        }
        std::cout << out.str() << std::endl;
    }
}
