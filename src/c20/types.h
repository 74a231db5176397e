// every family and type once; included by both units
static void runHere(int type, int order, const Vec& a, const Vec& x) {
  switch (type) {
    case 0: one<Iir::Butterworth::LowPass<4> >(order, a, x); break;
    case 1: one<Iir::Butterworth::HighPass<3, Iir::DirectFormI> >(order, a, x); break;
    case 2: two<Iir::Butterworth::BandPass<4, Iir::TransposedDirectFormII> >(order, a, x); break;
    case 3: two<Iir::Butterworth::BandStop<3> >(order, a, x); break;
    case 4: { Vec b; b.push_back(a[0]); b.push_back(a[3]); two<Iir::Butterworth::LowShelf<4> >(order, b, x); break; }
    case 5: { Vec b; b.push_back(a[0]); b.push_back(a[3]); two<Iir::Butterworth::HighShelf<5> >(order, b, x); break; }
    case 6: { Vec b; b.push_back(a[0]); b.push_back(a[1]); b.push_back(a[3]); three<Iir::Butterworth::BandShelf<3> >(order, b, x); break; }
    case 7: { Vec b; b.push_back(a[0]); b.push_back(a[2]); two<Iir::ChebyshevI::LowPass<5> >(order, b, x); break; }
    case 8: { Vec b; b.push_back(a[0]); b.push_back(a[2]); two<Iir::ChebyshevI::HighPass<4> >(order, b, x); break; }
    case 9: three<Iir::ChebyshevI::BandPass<3> >(order, a, x); break;
    case 10: three<Iir::ChebyshevI::BandStop<3, Iir::DirectFormI> >(order, a, x); break;
    case 11: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.2); three<Iir::ChebyshevI::LowShelf<4> >(order, b, x); break; }
    case 12: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.2); three<Iir::ChebyshevI::HighShelf<3> >(order, b, x); break; }
    case 13: { Vec b; b.push_back(a[0]); b.push_back(a[1]); b.push_back(a[3]); b.push_back(0.2); four<Iir::ChebyshevI::BandShelf<3> >(order, b, x); break; }
    case 14: { Vec b; b.push_back(a[0]); b.push_back(20 + a[2]); two<Iir::ChebyshevII::LowPass<5, Iir::TransposedDirectFormII> >(order, b, x); break; }
    case 15: { Vec b; b.push_back(a[0]); b.push_back(20 + a[2]); two<Iir::ChebyshevII::HighPass<4> >(order, b, x); break; }
    case 16: { Vec b(a); b[2] += 20; three<Iir::ChebyshevII::BandPass<3> >(order, b, x); break; }
    case 17: { Vec b(a); b[2] += 20; three<Iir::ChebyshevII::BandStop<4> >(order, b, x); break; }
    case 18: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.2); three<Iir::ChebyshevII::LowShelf<4> >(order, b, x); break; }
    case 19: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.2); three<Iir::ChebyshevII::HighShelf<3> >(order, b, x); break; }
    case 20: { Vec b; b.push_back(a[0]); b.push_back(a[1]); b.push_back(a[3]); b.push_back(0.2); four<Iir::ChebyshevII::BandShelf<3> >(order, b, x); break; }
    case 21: rbj1<Iir::RBJ::LowPass>(order, a, x); break;
    case 22: rbj1<Iir::RBJ::HighPass>(order, a, x); break;
    case 23: rbj2<Iir::RBJ::BandPass1>(order, a, x); break;
    case 24: rbj2<Iir::RBJ::BandPass2>(order, a, x); break;
    case 25: rbj2<Iir::RBJ::BandStop>(order, a, x); break;
    case 26: rbj1<Iir::RBJ::IIRNotch>(order, a, x); break;
    case 27: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.8); rbj3<Iir::RBJ::LowShelf>(order, b, x); break; }
    case 28: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(0.8); rbj3<Iir::RBJ::HighShelf>(order, b, x); break; }
    case 29: { Vec b; b.push_back(a[0]); b.push_back(a[3]); b.push_back(a[2]); rbj3<Iir::RBJ::BandShelf>(order, b, x); break; }
    case 30: rbj1<Iir::RBJ::AllPass>(order, a, x); break;
    default: sos(order, a, x);
  }
}
